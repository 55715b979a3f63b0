---------------------------- MODULE ParticlesTrace ----------------------------
(***************************************************************************)
(* Monitor for P22.  An event holds a grid per component (g[1] along x,     *)
(* g[2] along y, g[3] along z), particle positions p (<<y,x>> or <<z,y,x>>) *)
(* in units of 1/Q, resolutions r[k] = <<num, den>> per axis in the order   *)
(* x, y, z, the time step dt = <<num, den>>, and the new positions out in   *)
(* units of 1/K, K = Q^2 (or Q^3) * rd * dd.  For what = "interp" out holds   *)
(* the interpolated values of the component grids, times Q^2 (or Q^3).      *)
(***************************************************************************)
EXTENDS Interp, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev

\* the component's interpolated value, times Q^2 or Q^3
Vel(e, c, p) == IF e.dim = 2 THEN Bil(e.g[c], p[2], e.Q, p[1], e.Q)
                ELSE Tri(e.g[c], p[3], p[2], p[1], e.Q)
\* position entry k holds axis dim + 1 - k (1 = x)
New(e, p, k) == LET c == (e.dim + 1) - k
                    r == e.r[c]
                    K == e.pow * e.rd * e.dd
                IN  (p[k] * (K \div e.Q))
                    + (Vel(e, c, p) * r[1] * (e.rd \div r[2]) * e.dt[1] * (e.dd \div e.dt[2]))
Why(e) == IF e.kind # "ok" THEN "call-fails"
          ELSE IF Len(e.out) # Len(e.p) \/ \E j \in 1..Len(e.p) : Len(e.out[j]) # Len(e.g) THEN "shape"
          ELSE IF e.what = "interp"
               THEN IF \E j \in 1..Len(e.p) : \E c \in 1..Len(e.g) : Abs(e.out[j][c] - Vel(e, c, e.p[j])) > 1
                    THEN "interpolated-value" ELSE ""
          ELSE IF \E j \in 1..Len(e.p) : \E k \in 1..e.dim : Abs(e.out[j][k] - New(e, e.p[j], k)) > 1
               THEN "particle-moved-otherwise"
          ELSE ""
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
