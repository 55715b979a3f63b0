----------------------------- MODULE ChanceTrace -----------------------------
(* Monitor: counts over real draws.                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
M == INSTANCE Chance WITH Batches <- 1, Samples <- 1, BreakFold <- FALSE, BreakShare <- FALSE,
       BreakCall <- FALSE, batch <- 1, root <- <<>>, sample <- 0, left <- {}, used <- {}, reuse <- FALSE
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev
Why(e) ==
    IF e.kind # "ok" THEN "fails"
    ELSE CASE e.op = "flat" -> IF M!Flat(e.s) THEN "" ELSE "not-uniform"
           [] e.op = "table" -> IF M!Apart(e.t) THEN "" ELSE "not-independent"
           [] e.op = "share" -> IF M!Share(e.m, e.n, e.p) THEN "" ELSE "wrong-share"
           \* all values between the bounds (thousandths)
           [] e.op = "range" -> IF e.lo <= e.min /\ e.max <= e.hi THEN "" ELSE "out-of-range"
           \* a mean with its standard deviation (both ten-thousandths)
           [] e.op = "mean" -> IF M!Abs(e.m - e.want) <= 6 * e.sd + e.slack THEN "" ELSE "mean"
           [] e.op = "same" -> IF e.off <= e.most THEN "" ELSE "not-the-same"
           [] e.op = "all" -> IF e.m = e.n THEN "" ELSE "not-measurable"
           [] OTHER -> "unknown"
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = ""
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
