------------------------------- MODULE Motion -------------------------------
(***************************************************************************)
(* From a stored flow field to the motion seen in an image pair and to the    *)
(* returned flow field.  The oracle (Flow, Shown, Given) works in thousandths *)
(* of a pixel on affine fields; the model runs the pipeline (padding, crop to *)
(* the particle region, scaling to grid steps, moving, scaling back, crop to  *)
(* the image) on one axis in whole pixels and compares it with the oracle.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
\* an affine component f = <<value at the origin, slope along x, slope along y>>
\* (thousandths of a pixel, per pixel) at the field position (X, Y) (thousandths)
Flow(f, X, Y) == f[1] + (f[2] * X + f[3] * Y) \div 1000
\* the steepest slope decides how much a misplaced sample matters
Slope(f) == Abs(f[2]) + Abs(f[3])
Slack(f, px) == (Slope(f) * px) \div 1000
\* a blob seen at p1 in image 1 and p2 in image 2: displaced by the field at its
\* place, which is known to loc thousandths of a pixel
Shown(fx, fy, off, p1, p2, loc) ==
    LET X == off[1] + p1[1]  Y == off[2] + p1[2] IN
    /\ Abs(p2[1] - p1[1] - Flow(fx, X, Y)) <= 25 + Slack(fx, loc)
    /\ Abs(p2[2] - p1[2] - Flow(fy, X, Y)) <= 25 + Slack(fy, loc)
\* the returned field r at p1 (sn/sd = resolution * time step, or 1 for pixels);
\* its samples are known to spread thousandths of a pixel
Given(fx, fy, off, p1, r, sn, sd, spread) ==
    LET X == off[1] + p1[1]  Y == off[2] + p1[2]
        ok(f, v) == Abs(v * sn - Flow(f, X, Y) * sd) <= (20 + Slack(f, spread)) * sd + 2 * sn
    IN  ok(fx, r[1]) /\ ok(fy, r[2])
\* the motion is the returned field
Same(fx, fy, p1, p2, r, sn, sd, spread) ==
    LET ok(f, d, v) == Abs(v * sn - d * sd) <= (25 + Slack(f, spread)) * sd + 2 * sn
    IN  ok(fx, p2[1] - p1[1], r[1]) /\ ok(fy, p2[2] - p1[2], r[2])
\* a place is inside the image of px (thousandths), at least by room
Inside(x, y, px, room) == x >= room /\ x <= px[1] - 1000 - room /\ y >= room /\ y <= px[2] - 1000 - room
\* a pattern at p1 in image 1 is carried to a place inside image 2
Stays(fx, fy, off, p1, px) ==
    LET X == off[1] + p1[1]  Y == off[2] + p1[2]
    IN  Inside(p1[1] + Flow(fx, X, Y), p1[2] + Flow(fy, X, Y), px, 1000)
\* a pattern at p2 in image 2 comes from a place inside image 1 (the flow at the origin
\* differs from the flow at p2 by at most the slopes over the displacement)
Came(fx, fy, off, p2, px) ==
    LET X == off[1] + p2[1]  Y == off[2] + p2[2]
    IN  Inside(p2[1] - Flow(fx, X, Y), p2[2] - Flow(fy, X, Y), px, 2000)

\* ------------------------------------------------------------------ model
CONSTANTS Img, Size, BreakCrop, BreakScale, BreakPad
\* one axis: c0 + c1 * (pixel), g grid steps per pixel, image at off, particles
\* seeded from start (may lie before the field when room is needed to hide)
VARIABLES c, p, q, out, given, pc
vars == <<c, p, q, out, given, pc>>
Confs == [c0 : -2..2, c1 : {-1, 0, 1}, g : {1, 2}, off : 2..3, start : -2..1]
Max(a, b) == IF a > b THEN a ELSE b
Stored(k, s) == IF k < 0 THEN s.c0 * s.g ELSE s.c0 * s.g + s.c1 * k   \* grid steps * px per step
\* padding: whole grid steps at the near edge, edge values replicated
Pad(s) == Max(0, -s.start) * s.g + (IF BreakPad /\ s.start < 0 THEN 1 ELSE 0)
Padded(k, s) == Stored(k - Pad(s), s)
From(s) == Max(0, s.start) * s.g
Init == /\ c \in Confs /\ pc = "seed" /\ p = 0 /\ q = 0 /\ out = 0 /\ given = 0
Seed == /\ pc = "seed" /\ \E x \in 0..(c.off - c.start + Img - 1) : p' = x
        /\ q' = p' * c.g /\ pc' = "move" /\ UNCHANGED <<c, out, given>>
\* cropped field at grid position q, scaled from px to grid steps by g (the
\* stored value carries a factor g to stay whole)
Move == /\ pc = "move"
        /\ q' = q * (IF BreakScale THEN 1 ELSE c.g) + Padded(From(c) + q, c) * (IF BreakScale THEN 1 ELSE c.g)
        /\ pc' = "back" /\ UNCHANGED <<c, p, out, given>>
\* back to pixels: q counts 1/g grid steps
Back == /\ pc = "back" /\ out' = q - p * c.g * c.g   \* displacement * g * g
        /\ given' = IF p >= c.off - c.start
                    THEN Padded((IF BreakCrop THEN 0 ELSE From(c)) + p * c.g, c) * c.g ELSE out'
        /\ pc' = "done" /\ UNCHANGED <<c, p, q>>
Next == Seed \/ Move \/ Back
Spec == Init /\ [][Next]_vars
Where == c.start + p
True == (c.c0 + c.c1 * Where) * c.g * c.g
\* a particle inside the field moves by the field at its place, and the
\* returned field says so
Agree == pc = "done" /\ Where >= 0 => out = True /\ given = out
=============================================================================
