------------------------------- MODULE Images -------------------------------
(***************************************************************************)
(* Image generation for one sample: choosing density and ranges, hiding,     *)
(* depositing intensity, noise, clipping and masking, on a one-row image     *)
(* with unit-size particles.  Judge is the oracle also used for recorded     *)
(* samples of the real code (see ImageTrace).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* A sample's measurements m against the configuration c:
\*   lo, hi     smallest and largest value of both images (thousandths)
\*   finite, shape  1 if all values are finite / both images have the shape
\*   masked     number of non-zero values at masked pixels
\*   dens       reported density (millionths); dia, int, rho: index of the
\*              reported ranges among the requested ones (0: not among them)
\*   n1, n2     particles visible in the two images (estimated from the total
\*              intensity and the reported ranges), -1: not measurable
\*   diff       largest difference of the two images (thousandths)
\*   blank1, blank2  1 if the image is all zero
\*   cut1, cut2  1 if something is visible at the border of the image
\*   p1, p2     the particle of an image that shows exactly one (else <<>>):
\*              <<diameter x, diameter y, peak, correlation, x, y>> (thousandths)
Abs(x) == IF x < 0 THEN -x ELSE x
\* particles that should be visible in an unhidden image
Want(c, m) == (c.area * (m.dens \div 100)) \div 10000
\* Where the particles fill no more than the image, those at its border show only the
\* part inside: on the average the outer 0.2 diameters of each side are lost, and what
\* the flow carries out of the image (out: thousandths of a pixel along y and x).
Seeded(m, h, w) == ((((h \div 10) * (w \div 10)) \div 10000) * (m.dens \div 100)) \div 10000
Shown(c, m, out) ==
    IF c.window = 1 THEN Want(c, m)
    ELSE LET e == (2 * c.diaR[m.dia][1]) \div 5
         IN  Seeded(m, 1000 * c.h - e - out[1], 1000 * c.w - e - out[2])
\* particles close enough to the border to be affected
Border(c, m, out) ==
    IF c.window = 1 THEN 0
    ELSE LET e == 3 * c.diaR[m.dia][1]
         IN  Want(c, m) - Seeded(m, 1000 * c.h - e - out[1], 1000 * c.w - e - out[2])
\* 6 standard deviations of the loss (at most 0.4 for each particle at the border)
Close(n, want, border) ==
    LET off == Abs(n - want) - (3 * want) \div 100 - 2
    IN  off <= 0 \/ (off < 400 /\ off * off * 100 <= 576 * border)

\* hiding with probability p percent leaves about the rest (6 standard deviations)
Share(n, want, p, border) ==
    LET off == Abs(n - (want * (100 - p)) \div 100) - (3 * want) \div 100 - 2
    IN  off <= 0 \/ (off < 400 /\ off * off * 2500 <= 9 * want * p * (100 - p) + 14400 * border)
In(v, lo, hi, slack) == v >= lo - slack /\ v <= hi + slack
\* one particle p drawn with the reported ranges
Drawn(c, m, p) ==
    IF p = <<>> THEN ""
    ELSE LET d == c.diaR[m.dia]  i == c.intR[m.int]  r == c.rhoR[m.rho] IN
      IF ~In(p[1], d[1], d[2], 40) \/ ~In(p[2], d[1], d[2], 40) THEN "particle-diameter"
      ELSE IF ~In(p[3], i[1], i[2], 500 + i[2] \div 100) THEN "particle-intensity"
      ELSE IF ~In(p[4], r[1], r[2], 30) THEN "particle-correlation"
      ELSE ""
OneParticle(c, m) ==
    IF c.one = 0 THEN ""
    ELSE IF (c.hide1 = 0 /\ m.blank1 = 1) \/ (c.hide2 = 0 /\ m.blank2 = 1) THEN "particle-missing"
    ELSE IF (m.blank1 = 0 /\ m.cut1 = 0 /\ m.p1 = <<>>)
         \/ (m.blank2 = 0 /\ m.cut2 = 0 /\ m.p2 = <<>>) THEN "not-one-particle"
    ELSE IF m.cut1 = 0 /\ Drawn(c, m, m.p1) # "" THEN Drawn(c, m, m.p1)
    ELSE IF m.cut2 = 0 /\ Drawn(c, m, m.p2) # "" THEN Drawn(c, m, m.p2)
    ELSE IF c.vary = 0 /\ m.cut1 = 0 /\ m.cut2 = 0 /\ m.p1 # <<>> /\ m.p2 # <<>> /\
            (\E k \in {1, 2, 4} : Abs(m.p1[k] - m.p2[k]) > 30
             \/ Abs(m.p1[3] - m.p2[3]) > 500 + m.p1[3] \div 100) THEN "changed-without-variance"
    ELSE ""

\* particles in a window of a larger seeded area (6 standard deviations)
Window(n, want) ==
    LET off == Abs(n - want) - want \div 10 - 2
    IN  off <= 0 \/ (off < 10000 /\ off * off <= 36 * want)
Count(c, m, n, out) == IF c.window = 1 THEN Window(n, Want(c, m))
                       ELSE Close(n, Shown(c, m, out), Border(c, m, out))

Judge(c, m) ==
    IF m.shape # 1 THEN "shape"
    ELSE IF m.finite # 1 THEN "not-finite"
    ELSE IF m.lo < 0 \/ m.hi > 255000 THEN "range"
    ELSE IF c.hist = 0 /\ m.masked # 0 THEN "masked-pixels"
    ELSE IF m.dens < c.dlo - 2 \/ m.dens > c.dhi + 2 THEN "density-out-of-range"
    ELSE IF m.dia = 0 THEN "diameter-range"
    ELSE IF m.int = 0 THEN "intensity-range"
    ELSE IF m.rho = 0 THEN "correlation-range"
    ELSE IF c.hide1 = 100 /\ c.noise = 0 /\ c.hist = 0 /\ m.sum1 # 0 THEN "hidden-particles-visible"
    ELSE IF c.hide2 = 100 /\ c.noise = 0 /\ c.hist = 0 /\ m.sum2 # 0 THEN "hidden-particles-visible"
    ELSE IF c.hide1 = 0 /\ m.n1 >= 0 /\ ~Count(c, m, m.n1, <<0, 0>>) THEN "particle-count"
    ELSE IF c.hide2 = 0 /\ m.n2 >= 0 /\ ~Count(c, m, m.n2, c.out) THEN "particle-count"
    ELSE IF c.hide1 \in 1..99 /\ m.n1 >= 0 /\ ~Share(m.n1, Shown(c, m, <<0, 0>>), c.hide1, Border(c, m, <<0, 0>>)) THEN "hidden-share"
    ELSE IF c.hide2 \in 1..99 /\ m.n2 >= 0 /\ ~Share(m.n2, Shown(c, m, c.out), c.hide2, Border(c, m, c.out)) THEN "hidden-share"
    ELSE IF OneParticle(c, m) # "" THEN OneParticle(c, m)
    ELSE IF c.blanknoise > 0 /\ m.hi > c.blanknoise THEN "noise-amplitude"
    ELSE IF c.still = 1 /\ c.hide1 = 0 /\ c.hide2 = 0 /\ c.noise = 0 /\ m.diff > 60 THEN "images-differ"
    ELSE ""

\* ------------------------------------------------------------------ model
CONSTANTS W, MaxP, BreakMask, BreakHide, BreakMixed
Cells == 1..W
VARIABLES c, dens, amp, pos, hid1, hid2, img1, img2, pc
vars == <<c, dens, amp, pos, hid1, hid2, img1, img2, pc>>

Confs == [hide1 : {0, 50, 100}, hide2 : {0, 50, 100}, noise : {0, 1}, mask : {{}, {1}}]
Init == /\ c \in Confs /\ dens \in 0..MaxP /\ amp \in {100, 200} /\ pc = "place"
        /\ pos = <<>> /\ hid1 = {} /\ hid2 = {}
        /\ img1 = [x \in Cells |-> 0] /\ img2 = [x \in Cells |-> 0]
Place == /\ pc = "place" /\ \E p \in [1..MaxP -> Cells] : pos' = p
         /\ pc' = "hide" /\ UNCHANGED <<c, dens, amp, hid1, hid2, img1, img2>>
Picks(p) == IF p = 0 THEN {{}} ELSE IF p = 100 THEN {1..MaxP} ELSE SUBSET (1..MaxP)
Hide == /\ pc = "hide" /\ hid1' \in Picks(c.hide1)
        /\ hid2' \in Picks(IF BreakHide THEN c.hide1 ELSE c.hide2)
        /\ pc' = "draw" /\ UNCHANGED <<c, dens, amp, pos, img1, img2>>
Deposit(h) == [x \in Cells |-> amp * Cardinality({k \in 1..MaxP :
                 pos[k] = x /\ k \notin h /\ (BreakMixed \/ k <= dens)})]
Clip(v) == IF v > 255 THEN 255 ELSE IF v < 0 THEN 0 ELSE v
Draw == /\ pc = "draw" /\ \E n \in (IF c.noise = 1 THEN {-30, 30} ELSE {0}) :
             LET fin(i) == [x \in Cells |-> IF ~BreakMask /\ x \in c.mask THEN 0
                                            ELSE Clip(Clip(i[x]) + n)]
             IN  img1' = fin(Deposit(hid1)) /\ img2' = fin(Deposit(hid2))
        /\ pc' = "done" /\ UNCHANGED <<c, dens, amp, pos, hid1, hid2>>
Next == Place \/ Hide \/ Draw
Spec == Init /\ [][Next]_vars

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sum(_, _)
Sum(i, x) == IF x = 0 THEN 0 ELSE i[x] + Sum(i, x - 1)
Over(i) == \E x \in Cells : i[x] = 255
Vals == {img1[x] : x \in Cells} \cup {img2[x] : x \in Cells}
\* the particle count is measurable if nothing was clipped, masked or noisy
Visible(i) == IF c.noise = 1 \/ c.mask # {} \/ Over(i) THEN -1 ELSE Sum(i, W) \div amp
Measure == [shape |-> 1, finite |-> 1, lo |-> Min(Vals) * 1000, hi |-> Max(Vals) * 1000,
            masked |-> Cardinality({x \in c.mask : img1[x] # 0 \/ img2[x] # 0}),
            dens |-> dens * 10000, dia |-> 1, int |-> IF amp = 100 THEN 1 ELSE 2, rho |-> 1,
            sum1 |-> Sum(img1, W), sum2 |-> Sum(img2, W), n1 |-> Visible(img1), n2 |-> Visible(img2),
            blank1 |-> IF Sum(img1, W) = 0 THEN 1 ELSE 0, blank2 |-> IF Sum(img2, W) = 0 THEN 1 ELSE 0,
            p1 |-> <<>>, p2 |-> <<>>, cut1 |-> 0, cut2 |-> 0,
            diff |-> 1000 * Max({Abs(img1[x] - img2[x]) : x \in Cells})]
Conf == [hist |-> 0, dlo |-> 0, dhi |-> MaxP * 10000, area |-> 100, hide1 |-> c.hide1,
         hide2 |-> c.hide2, noise |-> c.noise, still |-> 1,
         one |-> 0, window |-> 0, blanknoise |-> 0, h |-> 10, w |-> 10, out |-> <<0, 0>>,
         diaR |-> <<<<0, 0>>>>]
Exact(n) == n < 0 \/ n = dens
Accepted == pc = "done" =>
              /\ Judge(Conf, Measure) = ""
              /\ (c.hide1 = 0 => Exact(Measure.n1)) /\ (c.hide2 = 0 => Exact(Measure.n2))
=============================================================================
