------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation on a grid, in exact integers.  A 2D grid is a sequence of  *)
(* rows; coordinates are whole multiples of 1/Q.                            *)
(*   Bil(g, xq, Qx, yq, Qy) = Qx * Qy * (bilinear value at (xq/Qx, yq/Qy))  *)
(* with the value of the nearest edge outside the grid.                     *)
(*   Tri(v, xq, yq, zq, Q)  = Q^3 * (trilinear value), inside the volume.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Least(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN 0 - a ELSE a
At(g, y, x) == g[y + 1][x + 1]

Bil(g, xq, Qx, yq, Qy) ==
    LET H == Len(g)
        W == Len(g[1])
        xc == Clamp(xq, 0, (W - 1) * Qx)
        yc == Clamp(yq, 0, (H - 1) * Qy)
        x0 == xc \div Qx
        y0 == yc \div Qy
        x1 == Least(x0 + 1, W - 1)
        y1 == Least(y0 + 1, H - 1)
        wx == xc - (x0 * Qx)
        wy == yc - (y0 * Qy)
    IN  ((Qx - wx) * (Qy - wy) * At(g, y0, x0)) + (wx * (Qy - wy) * At(g, y0, x1))
        + ((Qx - wx) * wy * At(g, y1, x0)) + (wx * wy * At(g, y1, x1))

Tri(v, xq, yq, zq, Q) ==
    LET D == Len(v)
        z0 == Clamp(zq \div Q, 0, D - 1)
        z1 == Least(z0 + 1, D - 1)
        wz == zq - (z0 * Q)
    IN  ((Q - wz) * Bil(v[z0 + 1], xq, Q, yq, Q)) + (wz * Bil(v[z1 + 1], xq, Q, yq, Q))

\* The broken variant: weights of the unclamped coordinate.
BilRaw(g, xq, Qx, yq, Qy) ==
    LET H == Len(g)
        W == Len(g[1])
        x0 == Clamp(xq \div Qx, 0, W - 1)
        y0 == Clamp(yq \div Qy, 0, H - 1)
        x1 == Least(x0 + 1, W - 1)
        y1 == Least(y0 + 1, H - 1)
        wx == xq - (x0 * Qx)
        wy == yq - (y0 * Qy)
    IN  ((Qx - wx) * (Qy - wy) * At(g, y0, x0)) + (wx * (Qy - wy) * At(g, y0, x1))
        + ((Qx - wx) * wy * At(g, y1, x0)) + (wx * wy * At(g, y1, x1))
=============================================================================
