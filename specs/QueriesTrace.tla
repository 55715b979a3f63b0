---------------------------- MODULE QueriesTrace ----------------------------
(* Monitor: a real stack with questions, and its twin without.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
M == INSTANCE Queries WITH L <- 0, MaxOps <- 0, BreakTake <- FALSE, BreakRewind <- FALSE,
       a <- <<>>, b <- <<>>, outA <- <<>>, outB <- <<>>, n <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, s, verdict
C == Traces[tr].cfg
Ev == Traces[tr].ev
Why(e) ==
    IF e.op = "construct" THEN (IF e.kind = "ok" THEN "" ELSE "construction-fails")
    ELSE IF e.op = "ask" THEN
        (IF e.kind # "ok" THEN "question-fails" ELSE IF M!Answer(C, s, e.q, e.v) THEN "" ELSE "wrong-answer")
    ELSE IF e.kind # e.kind2 THEN "disturbed"
    ELSE IF e.op = "get" THEN
        (IF M!Ends(s, C.L) /\ e.kind # "EpisodeEnd" THEN "episode-too-long"
         ELSE IF ~M!Ends(s, C.L) /\ e.kind \notin {"ok", "StopIteration"} THEN "request-fails"
         ELSE IF e.same # 1 THEN "disturbed" ELSE "")
    ELSE IF e.kind # "ok" THEN "request-fails" ELSE ""
Next(e) == IF e.op = "get" THEN (IF e.kind = "ok" THEN M!Got(s) ELSE s)
           ELSE IF e.op \in {"reset", "next"} THEN M!Again(s) ELSE s
Init == tr \in 1..Len(Traces) /\ i = 0 /\ s = M!Fresh /\ verdict = ""
Step == /\ verdict = ""
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr /\ s' = Next(Ev[i + 1])
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, s, verdict>>
=============================================================================
