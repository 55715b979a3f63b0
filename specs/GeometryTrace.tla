---------------------------- MODULE GeometryTrace ----------------------------
(* Monitor: placements given to the real sampler, accepted or refused, and    *)
(* the shapes of the batches of accepted ones.                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
G == INSTANCE Geometry WITH N <- 1, Swap <- FALSE, NoLow <- FALSE, a <- 0, start <- 0, v <- 0,
       seen <- 0, pc <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev
\* e.b: <<n, height, width>> of both images and <<n, height, width, 2>> of the flows
Want(e, k) == <<e.n, e.px[1], e.px[2]>>
Why(e) ==
    IF e.kind \notin {"accepted", "refused"} THEN "construction-fails"
    ELSE IF e.kind = "accepted" /\ ~G!Fits(e.y, e.x) THEN "unfit-geometry-accepted"
    ELSE IF e.kind = "refused" /\ G!Fits(e.y, e.x) THEN "fit-geometry-refused"
    ELSE IF e.kind = "refused" \/ e.run = "" THEN ""
    ELSE IF e.run # "ok" THEN "accepted-geometry-cannot-generate"
    ELSE IF e.s1 # Want(e, 1) \/ e.s2 # Want(e, 2) THEN "image-shape"
    ELSE IF e.sf # <<e.n, G!FlowLen(e.px[1], e.vnum, e.vden), G!FlowLen(e.px[2], e.vnum, e.vden), 2>>
         THEN "flow-shape"
    ELSE IF e.finite # 1 THEN "not-finite"
    ELSE ""
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
