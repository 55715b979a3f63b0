---------------------------- MODULE EpisodeTrace ----------------------------
(* Monitor for P06: recorded calls of a real episodic scheduler.             *)
EXTENDS EpisodeAbs, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, st, verdict
C == Traces[tr].cfg
Ev == Traces[tr].ev

Judge(e, s) ==
    CASE e.op = "construct" ->
           [why |-> IF (e.kind = "ok") = ~Rejected(C) THEN "" ELSE "construction", st |-> s]
      [] e.op = "get" ->
           LET j == JudgeStep(C, s, e.kind, e.cells)
           IN  IF j.why = "" /\ e.kind = "ok" /\ \E k \in 1..C.B : e.mask[k] # 1
               THEN [why |-> "mask", st |-> s]
               ELSE IF j.why = "" /\ e.kind = "ok" /\ e.labels # e.cells
               THEN [why |-> "labels", st |-> s] ELSE j
      [] e.op \in {"next", "reset"} ->
           [why |-> IF e.kind = "ok" THEN "" ELSE "next-episode-refused", st |-> EpStart]
      [] e.op = "rem" ->
           [why |-> IF e.kind = "ok" /\ e.v = C.L - s.t THEN "" ELSE "steps-remaining", st |-> s]
      [] e.op = "len" ->
           [why |-> IF e.kind = "ok" /\ e.v = C.L THEN "" ELSE "episode-length", st |-> s]
      [] OTHER -> [why |-> "unknown-event", st |-> s]

Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = "" /\ st = EpStart
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET j == Judge(Ev[i + 1], st) IN
             /\ i' = i + 1 /\ tr' = tr /\ st' = j.st
             /\ verdict' = IF j.why # "" THEN j.why ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, st, verdict>>
=============================================================================
