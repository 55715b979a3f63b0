------------------------------ MODULE Particles ------------------------------
(***************************************************************************)
(* A particle wandering over a small velocity grid: one velocity component  *)
(* (the other axis is symmetric).  Q subdivisions per grid step.            *)
(* Checked: the interpolated velocity is the stored one at grid points,     *)
(* stays within its four neighbours' range, is continuous across cells and  *)
(* edges, and constant beyond the edges.  Raw = TRUE is the broken variant. *)
(***************************************************************************)
EXTENDS Interp
CONSTANTS Q, H, W, Vals, Raw
VARIABLES g, x, y
vars == <<g, x, y>>
V(xx, yy) == IF Raw THEN BilRaw(g, xx, Q, yy, Q) ELSE Bil(g, xx, Q, yy, Q)
Init == /\ g \in [1..H -> [1..W -> Vals]]
        /\ x \in {0, ((W - 1) * Q) - 1} /\ y = 0
Range(d, n) == (0 - Q) <= d /\ d <= n * Q
MoveX == \E d \in {-1, 1} : Range(x + d, W) /\ x' = x + d /\ UNCHANGED <<g, y>>
MoveY == \E d \in {-1, 1} : Range(y + d, H) /\ y' = y + d /\ UNCHANGED <<g, x>>
Next == MoveX \/ MoveY
Spec == Init /\ [][Next]_vars
Inside == 0 <= x /\ x <= (W - 1) * Q /\ 0 <= y /\ y <= (H - 1) * Q
AtGridPoints == (Inside /\ x % Q = 0 /\ y % Q = 0) => V(x, y) = Q * Q * At(g, y \div Q, x \div Q)
Lo == CHOOSE v \in Vals : \A w \in Vals : v <= w
Hi == CHOOSE v \in Vals : \A w \in Vals : v >= w
InRange == Q * Q * Lo <= V(x, y) /\ V(x, y) <= Q * Q * Hi
NearestEdge == V(x, y) = V(Clamp(x, 0, (W - 1) * Q), Clamp(y, 0, (H - 1) * Q))
Continuous == [][Abs(V(x', y') - V(x, y)) <= Q * (Hi - Lo)]_vars
=============================================================================
