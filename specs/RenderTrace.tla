----------------------------- MODULE RenderTrace -----------------------------
(* Monitor: images rendered by the real code from given particles.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
M == INSTANCE Render WITH W <- 1, MaxP <- 1, BreakWrap <- FALSE, BreakClip <- FALSE,
       BreakSet <- FALSE, ps <- <<>>, left <- {}, img <- <<>>
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev
Why(e) ==
    IF e.kind # "ok" THEN "rendering-fails"
    ELSE IF e.shape # 1 THEN "shape"
    ELSE IF e.op = "one" THEN
        IF \E k \in 1..Len(e.px) : ~M!Pixel(e.p, e.px[k], e.dmax) THEN "not-the-gaussian" ELSE ""
    \* off: largest deviation in millionths of the brightest possible value
    ELSE IF e.off > 20 THEN
        (CASE e.op = "sum" -> "not-superposed" [] e.op = "order" -> "order-matters"
           [] e.op = "shift" -> "place-matters" [] e.op = "outside" -> "outside-particle-drawn"
           [] e.op = "dark" -> "dark-particle-drawn" [] e.op = "clip" -> "clip"
           [] e.op = "part" -> "cut-particle-differs"
           [] e.op = "ranges" -> "depends-on-other-ranges" [] OTHER -> "unknown")
    ELSE ""
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = ""
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
