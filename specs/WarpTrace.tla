------------------------------ MODULE WarpTrace ------------------------------
(***************************************************************************)
(* Monitor for P23.  Events: mode "forward", "backward", or "callable"      *)
(* (fwd: direction asked for), image im, displacement grids u, v in units   *)
(* of 1/Q (time step included), or, for callables, the coefficients cu, cv: *)
(* displacement = m * (c1 + c2 * x + c3 * y + c4 * t + c5 * [x > c6]) with m *)
(* the time step in units; result out in units of 1/Q^2.                    *)
(***************************************************************************)
EXTENDS Interp, TLC, Json, IOUtils
M == INSTANCE Warp WITH Q <- 1, H <- 1, W <- 1, Vals <- {}, Shifts <- {}, Trunc <- FALSE,
       img <- 0, dis <- 0, left <- {}, acc <- 0, lost <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev
Poly(c, m, t, y, x) == m * (c[1] + (c[2] * x) + (c[3] * y) + (c[4] * t) + (IF x > c[6] THEN c[5] ELSE 0))
Grid(e, c) == [y \in 1..Len(e.im) |-> [x \in 1..Len(e.im[1]) |-> Poly(c, e.m, e.t, y - 1, x - 1)]]
U(e) == IF e.mode = "callable" THEN Grid(e, e.cu) ELSE e.u
V(e) == IF e.mode = "callable" THEN Grid(e, e.cv) ELSE e.v
Fwd(e) == e.mode = "forward" \/ (e.mode = "callable" /\ e.fwd = 1)
Want(e, u, v, y, x) == IF Fwd(e) THEN M!Forward(e.Q, e.im, u, v, y, x) ELSE M!Backward(e.Q, e.im, u, v, y, x)
Why(e) ==
    LET h == Len(e.im)
        w == Len(e.im[1])
        u == U(e)
        v == V(e)
    IN  IF e.kind # "ok" THEN "call-fails"
        ELSE IF Len(e.out) # h \/ \E y \in 1..h : Len(e.out[y]) # w THEN "shape"
        ELSE IF \E y \in 1..h : \E x \in 1..w : Abs(e.out[y][x] - Want(e, u, v, y - 1, x - 1)) > 1
             THEN (IF Fwd(e) THEN "forward-mapping" ELSE "backward-mapping")
        ELSE ""
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
