----------------------------- MODULE AdapterTrace -----------------------------
(***************************************************************************)
(* Monitor for P25.  All lengths of an event are in units of 1/D grid steps *)
(* (per axis <<y, x>>): img = start and length of the image region, box =   *)
(* those of the particle region, in the padded field; pad = padding; nh, nw *)
(* the requested shape; f = the flows (component grids); m = <<num, den>>   *)
(* the factor of the output units; out[b][c] and box_out[k][c] the returned *)
(* grids times S.                                                           *)
(***************************************************************************)
EXTENDS Interp, TLC, Json, IOUtils
Ax == INSTANCE Adapter WITH F <- 1, D <- 1, MaxPad <- 0, NoPad <- FALSE, pad <- 0, start <- 0,
        len <- 0, n <- 0, j <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev
Den(e, n) == IF n = 1 THEN e.D ELSE e.D * (n - 1)
Coord(e, s, l, n, k) == (IF n = 1 THEN s ELSE (s * (n - 1)) + (k * (l - e.D)))
\* value times Den_y * Den_x of grid g at sample (ky, kx) of region reg = <<start, len>> per axis
Val(e, g, reg, ny, nx, ky, kx) ==
    LET dy == Den(e, ny)
        dx == Den(e, nx)
        y == Coord(e, reg[1][1], reg[1][2], ny, ky) - (e.pad[1] * dy)
        x == Coord(e, reg[2][1], reg[2][2], nx, kx) - (e.pad[2] * dx)
    IN  Bil(g, x, dx, y, dy)
Close(e, obs, val, den, m) == Abs((obs * den * m[2]) - (val * m[1] * e.S)) <= 2 * den * m[2]
BoxN(e, a) == LET k == e.box[a][2] \div e.D IN IF k < 1 THEN 1 ELSE k
ShapeOk(o, h, w) == Len(o) = 2 /\ \A c \in 1..2 : Len(o[c]) = h /\ \A y \in 1..h : Len(o[c][y]) = w
Why(e) ==
    LET n == Len(e.f)
        by == BoxN(e, 1)
        bx == BoxN(e, 2)
    IN  IF e.kind # "ok" THEN "call-fails"
        ELSE IF Len(e.out) # e.B \/ \E b \in 1..e.B : ~ShapeOk(e.out[b], e.nh, e.nw) THEN "adapted-shape"
        ELSE IF Len(e.bout) # n \/ \E b \in 1..n : ~ShapeOk(e.bout[b], by, bx) THEN "region-shape"
        ELSE IF \E b \in 1..e.B : \E c \in 1..2 : \E y \in 1..e.nh : \E x \in 1..e.nw :
                 ~Close(e, e.out[b][c][y][x],
                        Val(e, e.f[((b - 1) % n) + 1][c], e.img, e.nh, e.nw, y - 1, x - 1),
                        Den(e, e.nh) * Den(e, e.nw), e.m)
             THEN "adapted-field"
        ELSE IF \E b \in 1..n : \E c \in 1..2 : \E y \in 1..by : \E x \in 1..bx :
                 ~Close(e, e.bout[b][c][y][x], Val(e, e.f[b][c], e.box, by, bx, y - 1, x - 1),
                        Den(e, by) * Den(e, bx), <<1, 1>>)
             THEN "particle-region-field"
        ELSE ""
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
