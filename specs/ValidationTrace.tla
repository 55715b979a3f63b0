--------------------------- MODULE ValidationTrace ---------------------------
(***************************************************************************)
(* Monitor for P27.  A trace is a history of objects of one class:          *)
(*   new     v: the given values of all fields; kind, got                   *)
(*   update  from: an object, v: the named fields' values; kind, got, orig  *)
(*           (the original after the update)                                *)
(*   tree    from: an object flattened and rebuilt after add was added to   *)
(*           every leaf; got, orig                                          *)
(* Image specifications are checked (cfg.class = "spec"); the values of the *)
(* other classes are labels, 0 for a field that is None.                    *)
(***************************************************************************)
EXTENDS Fields, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, objs, verdict
Ev == Traces[tr].ev
Spec == Traces[tr].cfg.class = "spec"
Ok(v) == Spec => \A f \in DOMAIN v : SpecFieldOk(f, v[f])
Merge(o, v) == [f \in DOMAIN o |-> IF f \in DOMAIN v THEN v[f] ELSE o[f]]
Added(o, add) == [f \in DOMAIN o |-> IF o[f] = 0 THEN 0 ELSE o[f] + add]
Want(e) == IF e.op = "new" THEN e.v
           ELSE IF e.op = "update" THEN Merge(objs[e.from], e.v)
           ELSE Added(objs[e.from], e.add)
Why(e) ==
    LET w == Want(e) IN
    IF e.op # "new" /\ e.orig # objs[e.from] THEN "original-changed"
    ELSE IF ~Ok(w) /\ e.kind = "ok" THEN "accepted-an-invalid-value"
    ELSE IF Ok(w) /\ e.kind # "ok" THEN "refused-valid-values"
    ELSE IF e.kind = "ok" /\ e.got # w THEN "wrong-values"
    ELSE ""
Init == tr \in 1..Len(Traces) /\ i = 0 /\ objs = <<>> /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET e == Ev[i + 1]
               w == Why(e)
           IN /\ i' = i + 1 /\ tr' = tr
              /\ objs' = IF e.kind = "ok" THEN Append(objs, Want(e)) ELSE objs
              /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
              /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, objs, verdict>>
===============================================================================
