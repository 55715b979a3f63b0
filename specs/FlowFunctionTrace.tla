--------------------------- MODULE FlowFunctionTrace ---------------------------
(***************************************************************************)
(* Monitor for P34.  Every event carries the coefficients cu, cv of a function *)
(* (values in halves) and h, w.                                                *)
(*  sample  the array made of it: rows of <<u, v>> (halves)                      *)
(*  move    particles <<x, y, displacement along x, along y>> (halves) over it,  *)
(*          time step dt                                                        *)
(*  warp    a warp by the function against a warp by the array: off, the         *)
(*          largest difference (thousandths of an intensity)                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
F == INSTANCE FlowFunction WITH H <- 1, W <- 1, BreakAxes <- FALSE, BreakTime <- FALSE,
       cu <- 0, cv <- 0, left <- {}, field <- 0, at <- 0, moved <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev
Why(e) ==
    IF e.kind # "ok" THEN "call-fails"
    ELSE IF e.op = "sample" THEN
        (IF Len(e.out) # e.h \/ \E y \in 1..Len(e.out) : Len(e.out[y]) # e.w \/ \E x \in 1..Len(e.out[y]) : Len(e.out[y][x]) # 2
         THEN "shape"
         ELSE IF \E y \in 1..e.h : \E x \in 1..e.w :
                   e.out[y][x] # <<F!Value(e.cu, 1, x - 1, y - 1), F!Value(e.cv, 1, x - 1, y - 1)>>
         THEN "values" ELSE "")
    ELSE IF e.op = "move" THEN
        (IF \E k \in 1..Len(e.out) : LET p == e.out[k] IN
              p[3] # e.dt * F!Value(e.cu, 1, p[1], p[2]) \/ p[4] # e.dt * F!Value(e.cv, 1, p[1], p[2])
         THEN "particles" ELSE "")
    ELSE IF e.op = "warp" THEN (IF e.off <= 20 THEN "" ELSE "warps-differ")
    ELSE "unknown-event"
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
