-------------------------------- MODULE Render --------------------------------
(***************************************************************************)
(* Drawing particles: every particle adds a correlated Gaussian around its    *)
(* centre; what falls outside the image is dropped.  Exponent is the oracle    *)
(* for one pixel; the model deposits the particles one after the other, in     *)
(* any order, on a one-row image and compares the result with the sum.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
\* floor(1000 * n / m) for n >= 0 without leaving 32 bits (m at most 2 million)
Thousandths(n, m) == 1000 * (n \div m) + (1000 * (n % m)) \div m
\* Minus the logarithm of the relative intensity (thousandths) at a pixel that lies
\* (x, y) eighths of a pixel from the centre, for diameters dx, dy in quarter pixels
\* and the correlation k/5.
Exponent(x, y, dx, dy, k) ==
    Thousandths(25 * x * x * dy * dy + 25 * y * y * dx * dx - 10 * k * x * y * dx * dy,
                2 * (25 - k * k) * dx * dx * dy * dy)
\* A particle p = [x, y (eighths), dx, dy, k] at pixel <<row, column, l>>, where l is the
\* measured exponent (-1: nothing drawn there, -2: less than a millionth of the peak)
At(p, q) == Exponent(8 * q[2] - p.x, 8 * q[1] - p.y, p.dx, p.dy, p.k)
\* Pixels closer than this (eighths) along both axes must be drawn: 1.5 of the largest
\* diameter (quarters) that can occur, less half a pixel; always the nearest pixel
Reach(dmax) == IF dmax < 3 THEN 4 ELSE 3 * dmax - 4
Pixel(p, q, dmax) ==
    LET want == At(p, q)  near(a) == Abs(a) < Reach(dmax)
    IN  IF q[3] = -1 THEN (near(8 * q[2] - p.x) /\ near(8 * q[1] - p.y) => want > 80000)
        ELSE IF q[3] = -2 THEN want > 13500
        ELSE Abs(q[3] - want) <= 8 + want \div 500

\* ------------------------------------------------------------------ model
CONSTANTS W, MaxP, BreakWrap, BreakClip, BreakSet
Cells == 1..W
Kernel == <<1, 3, 2>>
Places == -1..(W + 2)
VARIABLES ps, left, img
vars == <<ps, left, img>>
Init == /\ ps \in UNION {[1..n -> Places \X (1..2)] : n \in 0..MaxP}
        /\ left = DOMAIN ps /\ img = [x \in Cells |-> 0]
\* cell of the k-th part of a patch around place x; 0: nowhere
Target(x, k) ==
    LET at == (IF BreakClip THEN (IF x < 2 THEN 2 ELSE IF x > W - 1 THEN W - 1 ELSE x) ELSE x) + k - 2
    IN  IF at \in Cells THEN at
        ELSE IF BreakWrap /\ at < 1 /\ at + W \in Cells THEN at + W ELSE 0
Deposit == \E j \in left :
    /\ left' = left \ {j} /\ ps' = ps
    /\ img' = [x \in Cells |->
         LET parts == {k \in 1..3 : Target(ps[j][1], k) = x}
         IN  IF parts = {} THEN img[x]
             ELSE LET v == ps[j][2] * Kernel[CHOOSE k \in parts : TRUE]
                  IN  IF BreakSet THEN v ELSE img[x] + v]
Next == Deposit
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
\* what the particles 1..n should add to cell x
Total(x, n) == IF n = 0 THEN 0
               ELSE Total(x, n - 1) + (LET k == x - ps[n][1] + 2
                                       IN IF k \in 1..3 THEN ps[n][2] * Kernel[k] ELSE 0)
Superposed == left = {} => \A x \in Cells : img[x] = Total(x, Len(ps))
=============================================================================
