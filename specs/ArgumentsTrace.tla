--------------------------- MODULE ArgumentsTrace ---------------------------
(* Monitor: real constructors and input checks called with given arguments.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
M == INSTANCE Arguments WITH N <- 1, Skip <- 0, Early <- FALSE, args <- <<>>, k <- 1,
       built <- FALSE, failed <- FALSE
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev
Why(e) ==
    IF e.kind = "hang" THEN "hang"
    ELSE IF M!Ok(e.fn, e.a) /\ e.kind # "ok" THEN "valid-arguments-refused"
    ELSE IF ~M!Ok(e.fn, e.a) /\ e.kind = "ok" THEN "invalid-arguments-accepted"
    ELSE ""
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = ""
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
