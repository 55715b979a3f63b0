--------------------------- MODULE SchedulerTrace ---------------------------
(* Monitor: replays recorded requests to a real scheduler on SchedulerAbs. *)
(* Every trace gets one verdict: "ok" or the first violated clause.        *)
EXTENDS SchedulerAbs, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, st, verdict

C == Traces[tr].cfg
Ev == Traces[tr].ev

Real(e) == SelectSeq(e.items, LAMBDA x : x # <<0, 0>>)

\* Layout of one delivered batch (the slices themselves are judged by JudgeGet).
Layout(e) ==
    LET k == Len(Real(e)) IN
    IF Len(e.items) # e.n THEN "batch-size"
    ELSE IF \E j \in 1..e.n : (e.items[j] = <<0, 0>>) # (j > k) THEN "padding-not-at-end"
    ELSE IF Len(e.mask) # e.n THEN "mask-length"
    ELSE IF \E j \in 1..e.n : e.mask[j] # (IF j <= k THEN 1 ELSE 0) THEN "mask"
    ELSE IF Len(e.labels) # e.n THEN "labels-length"
    ELSE IF \E j \in 1..e.n : e.labels[j] # (IF j <= k THEN e.items[j][1] ELSE 0) THEN "label"
    ELSE IF C.img = 0 THEN (IF e.im1 = <<>> /\ e.im2 = <<>> THEN "" ELSE "unexpected-images")
    ELSE IF Len(e.im1) # e.n \/ Len(e.im2) # e.n THEN "images-length"
    ELSE IF \E j \in 1..e.n : e.im1[j] # (IF j <= k THEN e.items[j][1] ELSE 0) THEN "image1"
    ELSE IF \E j \in 1..e.n : e.im2[j] # (IF j <= k THEN e.items[j][1] ELSE 0) THEN "image2"
    ELSE ""

Judge(e, s) ==
    CASE e.op = "get" ->
           LET j == JudgeGet(C, s, e.n, e.kind, IF e.kind = "ok" THEN Real(e) ELSE <<>>)
           IN  IF j.why # "" THEN j
               ELSE [why |-> IF e.kind = "ok" THEN Layout(e) ELSE "", st |-> j.st]
      [] e.op = "reset" ->
           [why |-> IF e.kind = "ok" THEN "" ELSE "reset-failed", st |-> DoReset(C, s)]
      [] e.op = "break"  -> [why |-> "", st |-> SetOk(s, e.n, FALSE)]
      [] e.op = "repair" -> [why |-> "", st |-> SetOk(s, e.n, TRUE)]
      [] OTHER -> [why |-> "unknown-event", st |-> s]

Init == /\ tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
        /\ st = Fresh(C, C.ok)
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET j == Judge(Ev[i + 1], st)
           IN  /\ st' = j.st /\ i' = i + 1 /\ tr' = tr
               /\ verdict' = IF j.why # "" THEN j.why
                             ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
               /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, st, verdict>>
=============================================================================
