----------------------------- MODULE FactoryTrace -----------------------------
(***************************************************************************)
(* Monitor for P26.  An event holds a configuration c (key -> value, see    *)
(* Fields), the environment (files: frames per sequence directory, n slices *)
(* per file, the stored field's shape, ndev devices) and what building it   *)
(* did: kind, and if built the sampler, its layers and sizes, and the first *)
(* batches taken from it.                                                   *)
(***************************************************************************)
EXTENDS Fields, TLC, Json, IOUtils, FiniteSets
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev
F == INSTANCE Factory WITH MaxB <- 1, MaxEp <- 0, MaxFrames <- 1, WrongSize <- FALSE,
       c <- 0, pc <- 0, layers <- 0, sizes <- 0

Has(c, k) == k \in DOMAIN c
Given(c, k) == Has(c, k) /\ c[k].t # "none"
BoolOr(c, k, dflt) == IF Has(c, k) THEN c[k].n = 1 ELSE dflt
IntOr(c, k, dflt) == IF Has(c, k) THEN c[k].n ELSE dflt
Images(c) == BoolOr(c, "include_images", FALSE)

\* ---------------------------------------------------------------- validity
FilesOk(c) == /\ Has(c, "file_list")
              /\ LET v == c["file_list"]
                     it == IF v.t = "str" THEN <<v>> ELSE v.items
                 IN  /\ v.t \in {"str", "list"}
                     /\ \A k \in 1..Len(it) : it[k].t = "str" /\ it[k].s \in {"file", "dir", "emptydir"}
                     /\ \E k \in 1..Len(it) : it[k].s \in {"file", "dir"}
CommonOk(e) ==
    LET c == e.c IN
    /\ Has(c, "scheduler_class") /\ c["scheduler_class"].t = "str" /\ c["scheduler_class"].s \in {".mat", ".h5", ".npy"}
    /\ Has(c, "batch_size") /\ PosInt(c["batch_size"])
    /\ \A k \in {"include_images", "randomize", "loop"} : Has(c, k) => Bool(c[k])
    /\ \A k \in {"buffer_size", "episode_length"} : Has(c, k) => NonNegInt(c[k])
    /\ FilesOk(c)
    /\ IntOr(c, "episode_length", 0) > 0 =>
         (c["scheduler_class"].s = ".mat" /\ \A s \in 1..Len(e.frames) : e.frames[s] >= c["episode_length"].n)
ImagesOk(e) ==
    LET c == e.c IN
    /\ c["scheduler_class"].s = ".mat"
    /\ Has(c, "image_shape") => ConfigFieldOk("image_shape", c["image_shape"])
    /\ Has(c, "seed") => NonNegInt(c["seed"])
\* the region the particles may come from lies in the field (axis 1 = y, 2 = x)
Fits(c, a) ==
    LET sp == IF a = 1 THEN <<"min_speed_y", "max_speed_y">> ELSE <<"min_speed_x", "max_speed_x">>
        zero == Rat(0, 1)
        lo == IF c[sp[1]].n < 0 THEN c[sp[1]] ELSE zero
        hi == IF c[sp[2]].n > 0 THEN c[sp[2]] ELSE zero
        off == c["img_offset"].items[a]
        start == Minus(off, Times(hi, c["dt"]))
        finish == Minus(Plus(off, Over(c["image_shape"].items[a], c["resolution"])), Times(lo, c["dt"]))
    IN  start.n >= 0 /\ Rle(finish, c["flow_field_size"].items[a])
FlowSide(c, a) == Floor(Times(c["image_shape"].items[a], c["velocities_per_pixel"]))
SyntheticKeys == FieldNames \cup {"flow_fields_per_batch", "batches_per_flow_batch", "flow_field_size", "resolution",
    "velocities_per_pixel", "seed", "max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y", "output_units"}
SyntheticOk(e) ==
    LET c == e.c IN
    /\ \A k \in SyntheticKeys : Has(c, k)
    /\ \A k \in FieldNames : ConfigFieldOk(k, c[k])
    /\ PosInt(c["flow_fields_per_batch"]) /\ c["flow_fields_per_batch"].n <= c["batch_size"].n
    /\ PosInt(c["batches_per_flow_batch"])
    /\ Seq2(c["flow_field_size"]) /\ Len(c["flow_field_size"].items) = 2 /\ AllItems(c["flow_field_size"], Pos)
    /\ Pos(c["resolution"]) /\ Pos(c["velocities_per_pixel"])
    /\ NonNegInt(c["seed"])
    /\ \A k \in {"max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y"} : Num(c[k])
    /\ Le(c["min_speed_x"], c["max_speed_x"]) /\ Le(c["min_speed_y"], c["max_speed_y"])
    /\ c["output_units"].t = "str" /\ c["output_units"].s \in {"pixels", "measure units per second"}
    /\ Given(c, "mask") => (c["mask"].t = "str" /\ c["mask"].s = "mask")
    /\ Given(c, "histogram") => (c["histogram"].t = "str" /\ c["histogram"].s = "histogram")
    /\ Given(c, "device_ids") =>
         LET d == c["device_ids"] IN
         /\ d.t = "list" /\ AllItems(d, NonNegInt)
         /\ \E k \in 1..Len(d.items) : d.items[k].n < e.ndev
         /\ \A k, m \in 1..Len(d.items) : (k # m /\ d.items[k].n < e.ndev) => d.items[k].n # d.items[m].n
    /\ Fits(c, 1) /\ Fits(c, 2) /\ FlowSide(c, 1) > 0 /\ FlowSide(c, 2) > 0
Valid(e) == CommonOk(e) /\ (IF Images(e.c) THEN ImagesOk(e) ELSE SyntheticOk(e))

\* -------------------------------------------------------------- what is built
Abstract(e) == [cls |-> e.c["scheduler_class"].s, images |-> Images(e.c), buf |-> IntOr(e.c, "buffer_size", 0),
                ep |-> IntOr(e.c, "episode_length", 0), B |-> e.c["batch_size"].n,
                F |-> IntOr(e.c, "flow_fields_per_batch", 0), K |-> IntOr(e.c, "batches_per_flow_batch", 0)]
Ndev(e) == IF Images(e.c) THEN 1
           ELSE IF Given(e.c, "device_ids")
                THEN Cardinality({k \in 1..Len(e.c["device_ids"].items) : e.c["device_ids"].items[k].n < e.ndev})
                ELSE e.ndev
BatchSize(e) == LET d == Ndev(e) IN ((e.c["batch_size"].n + (d - 1)) \div d) * d
ImageShape(e) == IF Has(e.c, "image_shape") THEN <<e.c["image_shape"].items[1].n, e.c["image_shape"].items[2].n>>
                 ELSE <<256, 256>>
FlowShape(e) == IF Images(e.c) THEN ImageShape(e) ELSE <<FlowSide(e.c, 1), FlowSide(e.c, 2)>>

\* ------------------------------------------------------- the batches it serves
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
NFiles(e) == Sum(e.frames)
Total(e) == NFiles(e) * e.n
\* labels over all flow batches, padding left out
RECURSIVE Flat(_, _)
Flat(e, ls) == IF ls = <<>> THEN <<>> ELSE SelectSeq(Head(ls), LAMBDA x : x # 0) \o Flat(e, Tail(ls))
Oks(e) == SelectSeq(e.takes, LAMBDA t : t.kind = "ok")
\* one entry per flow batch
Distinct(e, k) == [j \in 1..((Len(Oks(e)) + (k - 1)) \div k) |-> Oks(e)[((j - 1) * k) + 1].labels]
OrderOk(e) ==
    LET a == Abstract(e)
        s == Flat(e, Distinct(e, F!Repeat(a)))
        nf == NFiles(e)
        at(p, q) == (p * Total(e)) + q
        passes == Len(s) \div Total(e)
    IN  IF BoolOr(e.c, "randomize", FALSE)
        THEN \* each complete pass delivers every file, slices in a row
             /\ \A p \in 0..(passes - 1) : {s[at(p, q)] : q \in 1..Total(e)} = 1..nf
             /\ \A p \in 0..passes : \A q \in 1..Total(e) :
                  (at(p, q) <= Len(s) /\ (q % e.n) # 1 /\ e.n > 1) => s[at(p, q)] = s[at(p, q) - 1]
        ELSE \A k \in 1..Len(s) : s[k] = (((k - 1) % Total(e)) \div e.n) + 1
RepeatOk(e) == LET k == F!Repeat(Abstract(e)) IN
    \A j \in 1..Len(Oks(e)) : Oks(e)[j].labels = Oks(e)[(((j - 1) \div k) * k) + 1].labels
\* how many batches come before the end of the data (a plain scheduler)
Available(e) == LET a == Abstract(e)
                    r == F!Asks(a)
                IN  IF BoolOr(e.c, "loop", TRUE) THEN 1000000
                    ELSE ((Total(e) + (r - 1)) \div r) * F!Repeat(a)
LaneStep(e, x, y) == x # 0 /\ y = x + 1 /\ e.seq[x] = e.seq[y]
TakesOk(e) ==
    LET a == Abstract(e) IN
    IF a.ep = 0
    THEN /\ \A k \in 1..Len(e.takes) : e.takes[k].kind = IF k <= Available(e) THEN "ok" ELSE "stop"
         /\ \A k \in 1..Len(e.takes) : e.takes[k].done \in {"none", "false"}
    ELSE \* episodes of the configured length, then the end of the episode
         /\ \A k \in 1..Len(e.takes) : e.takes[k].kind = IF ((k - 1) % (a.ep + 1)) < a.ep THEN "ok" ELSE "episode_end"
         /\ \A k \in 1..Len(e.takes) : e.takes[k].kind = "ok" =>
              e.takes[k].done = IF (k % (a.ep + 1)) = a.ep THEN "true" ELSE "false"
LanesOk(e) ==
    LET a == Abstract(e) IN
    a.ep > 0 =>
      \A k \in 1..Len(e.takes) : e.takes[k].kind = "ok" =>
        /\ Len(e.takes[k].labels) = F!Asks(a)
        /\ \A j \in 1..Len(e.takes[k].labels) :
             IF ((k - 1) % (a.ep + 1)) = 0 THEN e.takes[k].labels[j] # 0
             ELSE LaneStep(e, e.takes[k - 1].labels[j], e.takes[k].labels[j])
ShapesOk(e, t) ==
    /\ t.ishape = <<BatchSize(e)>> \o ImageShape(e)
    /\ t.fshape = <<BatchSize(e)>> \o FlowShape(e) \o <<2>>
    /\ Len(t.labels) = F!Asks(Abstract(e)) /\ Len(t.mask) = Len(t.labels)
    /\ \A k \in 1..Len(t.mask) : (t.mask[k] = 1) <=> (t.labels[k] # 0)
    /\ t.params = IF Images(e.c) THEN 0 ELSE 1
SameConfig(a, b) == a.c = b.c /\ a.ndev = b.ndev /\ a.frames = b.frames /\ a.data = b.data
OnlySeed(a, b) == /\ Has(a.c, "seed") /\ Has(b.c, "seed") /\ a.c["seed"] # b.c["seed"]
                  /\ [a.c EXCEPT !["seed"] = b.c["seed"]] = b.c /\ a.ndev = b.ndev /\ a.data = b.data
Digests(e) == [k \in 1..Len(e.takes) |-> e.takes[k].digest]

Why(n) ==
    LET e == Ev[n]
        a == Abstract(e)
    IN  IF ~Valid(e) THEN (IF e.kind = "ok" THEN "accepted-an-invalid-configuration"
                           ELSE IF e.kind = "hang" THEN "no-answer" ELSE "")
        ELSE IF e.kind # "ok" THEN "refused-a-valid-configuration"
        ELSE IF e.sampler # (IF a.images THEN "real" ELSE "synthetic") THEN "sampler-kind"
        ELSE IF e.layers # F!Layers(a) THEN "layers"
        ELSE IF a.buf > 0 /\ e.buf # a.buf THEN "buffer-size"
        ELSE IF a.ep > 0 /\ e.ep # a.ep THEN "episode-length"
        ELSE IF Ndev(e) # e.devs THEN "devices"
        ELSE IF Len(e.takes) = 0 \/ e.takes[1].kind # "ok" THEN "first-batch"
        ELSE IF \E k \in 1..Len(Oks(e)) : ~ShapesOk(e, Oks(e)[k]) THEN "shapes"
        ELSE IF ~TakesOk(e) THEN "batches-or-episodes"
        ELSE IF ~LanesOk(e) THEN "episode-lanes"
        ELSE IF ~RepeatOk(e) THEN "batches-per-flow-batch"
        ELSE IF a.ep = 0 /\ ~OrderOk(e) THEN "order-of-files"
        ELSE IF e.direct # "" /\ e.direct # e.takes[1].digest THEN "options-not-in-force"
        ELSE IF \E m \in 1..(n - 1) : Ev[m].kind = "ok" /\ SameConfig(Ev[m], e) /\ Digests(Ev[m]) # Digests(e)
             THEN "not-determined-by-the-configuration"
        ELSE IF ~a.images /\ \E m \in 1..(n - 1) : Ev[m].kind = "ok" /\ OnlySeed(Ev[m], e) /\ Ev[m].takes[1].digest = e.takes[1].digest
             THEN "seed-not-in-force"
        ELSE ""
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Why(i + 1) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
===============================================================================
