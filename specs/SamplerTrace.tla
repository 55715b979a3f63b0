---------------------------- MODULE SamplerTrace ----------------------------
(* Monitor: recorded runs of real synthetic samplers.                        *)
EXTENDS SamplerAbs, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, s, verdict
Cs == Traces[tr].cfg.lanes
Ev == Traces[tr].ev
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = "" /\ s = SInit(Cs)
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET j == On(Cs, s, Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr /\ s' = j.s
             /\ verdict' = IF j.why # "" THEN j.why ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, s, verdict>>
=============================================================================
