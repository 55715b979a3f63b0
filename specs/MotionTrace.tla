----------------------------- MODULE MotionTrace -----------------------------
(* Monitor: single particles recognised in both images of real samples.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
M == INSTANCE Motion WITH Img <- 1, Size <- 1, BreakCrop <- FALSE, BreakScale <- FALSE,
       BreakPad <- FALSE, c <- 0, p <- 0, q <- 0, out <- 0, given <- 0, pc <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
C == Traces[tr].cfg
Ev == Traces[tr].ev
\* a blob: sample k (from 0), positions p1 and p2, returned field r at p1
Why(e) ==
    IF e.kind # "ok" THEN "generation-fails"
    ELSE LET f == C.flows[(e.k % Len(C.flows)) + 1] IN
      IF e.see = "changed" THEN "pattern-changes"
      ELSE IF e.see = "first" THEN (IF M!Stays(f.u, f.v, C.off, e.p1, C.px) THEN "pattern-lost" ELSE "")
      ELSE IF e.see = "second" THEN (IF M!Came(f.u, f.v, C.off, e.p2, C.px) THEN "pattern-appears" ELSE "")
      ELSE IF ~M!Same(f.u, f.v, e.p1, e.p2, e.r, C.sn, C.sd, C.slack) THEN "motion-is-not-returned-flow"
      ELSE IF ~M!Shown(f.u, f.v, C.off, e.p1, e.p2, C.loc) THEN "motion-disagrees-with-stored-flow"
      ELSE IF ~M!Given(f.u, f.v, C.off, e.p1, e.r, C.sn, C.sd, C.slack + C.loc) THEN "returned-flow-misplaced"
      ELSE ""
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = ""
        /\ LET w == IF Cardinality({k \in 1..Len(Ev) : Ev[k].see = "both" \/ Ev[k].kind # "ok"}) < C.least THEN "pattern-not-found" ELSE Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
