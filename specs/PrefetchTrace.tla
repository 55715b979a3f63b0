--------------------------- MODULE PrefetchTrace ---------------------------
(* Monitor: recorded executions of the real prefetching scheduler.           *)
EXTENDS PrefetchAbs, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, s, verdict
C == Traces[tr].cfg
Ev == Traces[tr].ev
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = "" /\ s = PInit(C)
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET j0 == On(C, s, Ev[i + 1])
             \* clauses that belong to another property are not judged here
             j == IF \E k \in 1..Len(C.ignore) : C.ignore[k] = j0.why
                  THEN [j0 EXCEPT !.why = ""] ELSE j0 IN
             /\ i' = i + 1 /\ tr' = tr /\ s' = j.s
             /\ verdict' = IF j.why # "" THEN j.why ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, s, verdict>>
=============================================================================
