----------------------------- MODULE FlowFunction -----------------------------
(***************************************************************************)
(* A flow given as a function of time and place.  Value is the function; the  *)
(* machine samples it cell by cell, in any order, into an array of rows, and   *)
(* uses both the function and the array to displace particles: what the array  *)
(* says at a grid point is what the function says there.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* c = <<constant, per x, per y, per t, per x*y, step, where>>: the step is added right of the column "where"
Value(c, t, x, y) == c[1] + (c[2] * x) + (c[3] * y) + (c[4] * t) + (c[5] * x * y) + (IF x > c[7] THEN c[6] ELSE 0)

\* ------------------------------------------------------------------ model
CONSTANTS H, W, BreakAxes, BreakTime
Coefs == {<<1, 2, 0, 1, 0, 0, 0>>, <<0, 1, 3, 0, 1, 0, 0>>, <<0, 0, 1, 2, 0, 4, 1>>}
Cells == (0..(H - 1)) \X (0..(W - 1))
VARIABLES cu, cv, left, field, at, moved
vars == <<cu, cv, left, field, at, moved>>
Init == /\ cu \in Coefs /\ cv \in Coefs /\ left = Cells /\ field = [c \in Cells |-> <<0, 0>>]
        /\ at \in Cells /\ moved = <<>>
Sample == \E c \in left :
    LET x == IF BreakAxes THEN c[1] ELSE c[2]
        y == IF BreakAxes THEN c[2] ELSE c[1]
        t == IF BreakTime THEN 0 ELSE 1
    IN  /\ left' = left \ {c} /\ field' = [field EXCEPT ![c] = <<Value(cu, t, x, y), Value(cv, t, x, y)>>]
        /\ UNCHANGED <<cu, cv, at, moved>>
\* a particle at a grid point moves by the sampled velocity
Move == /\ left = {} /\ moved = <<>>
        /\ moved' = <<at[1] + field[at][2], at[2] + field[at][1]>>
        /\ UNCHANGED <<cu, cv, left, field, at>>
Next == Sample \/ Move
Spec == Init /\ [][Next]_vars
Sampled == left = {} => \A c \in Cells : field[c] = <<Value(cu, 1, c[2], c[1]), Value(cv, 1, c[2], c[1])>>
Follows == moved # <<>> => moved = <<at[1] + Value(cv, 1, at[2], at[1]), at[2] + Value(cu, 1, at[2], at[1])>>
=============================================================================
