-------------------------------- MODULE Warp --------------------------------
(***************************************************************************)
(* Forward and backward warps in exact integers: displacements du, dv are   *)
(* whole multiples of 1/Q pixels, images hold integers, results are scaled  *)
(* by Q^2.                                                                  *)
(*                                                                         *)
(* The model deposits the pixels of a small image one by one (the order     *)
(* must not matter) and accounts for everything that falls outside.         *)
(* Trunc = TRUE is the broken variant rounding the cell towards zero.       *)
(***************************************************************************)
EXTENDS Interp, FiniteSets
CONSTANTS Q, H, W, Vals, Shifts, Trunc
VARIABLES img, dis, left, acc, lost
vars == <<img, dis, left, acc, lost>>

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

Cells(h, w) == (0..(h - 1)) \X (0..(w - 1))
\* weight (times q^2) with which a pixel displaced to (yq/q, xq/q) feeds cell (y, x)
Hat(d, q) == IF Abs(d) >= q THEN 0 ELSE q - Abs(d)
Weight(q, yq, xq, y, x) == Hat(yq - (y * q), q) * Hat(xq - (x * q), q)
\* forward warp of image im by displacements u, v (grids), cell (y, x)
Forward(q, im, u, v, y, x) ==
    LET h == Len(im)
        w == Len(im[1])
        Row(yy) == LET RECURSIVE Go(_)
                       Go(xx) == IF xx = w THEN 0
                                 ELSE (At(im, yy, xx) * Weight(q, (yy * q) + At(v, yy, xx), (xx * q) + At(u, yy, xx), y, x))
                                      + Go(xx + 1)
                   IN Go(0)
        RECURSIVE Rows(_)
        Rows(yy) == IF yy = h THEN 0 ELSE Row(yy) + Rows(yy + 1)
    IN  Rows(0)
Backward(q, im, u, v, y, x) == Bil(im, (x * q) - At(u, y, x), q, (y * q) - At(v, y, x), q)

\* ------------------------------------------------------- the deposit machine
Quot(a) == IF Trunc /\ a < 0 THEN 0 - ((0 - a) \div Q) ELSE a \div Q
Init == /\ img \in [Cells(H, W) -> Vals] /\ dis \in [Cells(H, W) -> Shifts]
        /\ left = Cells(H, W) /\ acc = [c \in Cells(H, W) |-> 0] /\ lost = 0
Deposit(p) ==
    LET yq == (p[1] * Q) + dis[p][1]
        xq == (p[2] * Q) + dis[p][2]
        y0 == Quot(yq)
        x0 == Quot(xq)
        wy == yq - (y0 * Q)
        wx == xq - (x0 * Q)
        part == [d \in {0, 1} \X {0, 1} |->
                   img[p] * (IF d[1] = 1 THEN wy ELSE Q - wy) * (IF d[2] = 1 THEN wx ELSE Q - wx)]
        goes(c) == {d \in {0, 1} \X {0, 1} : <<y0 + d[1], x0 + d[2]>> = c}
        add == [c \in Cells(H, W) |-> SumOver(part, goes(c))]
    IN  /\ acc' = [c \in Cells(H, W) |-> acc[c] + add[c]]
        /\ lost' = lost + (img[p] * Q * Q) - SumOver(add, Cells(H, W))
        /\ left' = left \ {p} /\ UNCHANGED <<img, dis>>
Next == \E p \in left : Deposit(p)
Spec == Init /\ [][Next]_vars
Grid(f) == [y \in 1..H |-> [x \in 1..W |-> f[<<y - 1, x - 1>>]]]
U == Grid([c \in Cells(H, W) |-> dis[c][2]])
VV == Grid([c \in Cells(H, W) |-> dis[c][1]])
\* whatever the order, the result is the closed form
Result == left = {} => \A c \in Cells(H, W) : acc[c] = Forward(Q, Grid(img), U, VV, c[1], c[2])
\* nothing is created; only what lies outside is lost
Conserved == /\ lost >= 0
             /\ lost + SumOver(acc, Cells(H, W)) = Q * Q * SumOver(img, Cells(H, W) \ left)
Stays(p) == LET yq == (p[1] * Q) + dis[p][1]
                xq == (p[2] * Q) + dis[p][2]
            IN  yq >= 0 /\ yq <= (H - 1) * Q /\ xq >= 0 /\ xq <= (W - 1) * Q
NothingLost == (\A p \in Cells(H, W) : Stays(p)) => lost = 0
=============================================================================
