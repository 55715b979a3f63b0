------------------------------- MODULE Adapter -------------------------------
(***************************************************************************)
(* One axis of the flow adapter: a field of F grid samples, Pad edge        *)
(* samples put in front, regions given in grid steps (multiples of 1/D).    *)
(* A region [start, start + len) is sampled at n even points from start to  *)
(* start + len - 1.  The model walks over the samples of the image region   *)
(* inside the particle region and checks: every sample reads the unpadded   *)
(* field at its place (or its first sample in the padding), stays inside    *)
(* its region, and samples are evenly spaced; with one sample per grid step *)
(* and a region on the grid the stored values are returned.                 *)
(* NoPad = TRUE (broken): the offset ignores the padding.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS F, D, MaxPad, NoPad
VARIABLES pad, start, len, n, j
vars == <<pad, start, len, n, j>>
\* sample k (from 0) of n, times D * (n - 1); n = 1: the start
Den(nn) == IF nn = 1 THEN D ELSE D * (nn - 1)
Coord(s, l, nn, k) == IF nn = 1 THEN s ELSE (s * (nn - 1)) + (k * (l - D))
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
\* place in the unpadded field (times Den) that a padded coordinate refers to
Place(c, p, nn) == Clamp(c - (p * Den(nn)), 0, (F - 1) * Den(nn))
Init == /\ pad \in 0..MaxPad /\ start \in 0..(F * D) /\ len \in D..(F * D) /\ n \in 1..4 /\ j = 0
        /\ start + len <= (F + pad) * D
Walk == j + 1 < n /\ j' = j + 1 /\ UNCHANGED <<pad, start, len, n>>
Next == Walk
Spec == Init /\ [][Next]_vars
C == Coord(start, len, n, j)
Inside == C >= start * (Den(n) \div D) /\ C <= (start + len - D) * (Den(n) \div D)
Reads == LET q == Place(C, IF NoPad THEN 0 ELSE pad, n)
             \* what the padded field holds there: the true place is C - pad
             t == C - (pad * Den(n))
         IN  q = Clamp(t, 0, (F - 1) * Den(n))
Even == [][Coord(start, len, n, j') - Coord(start, len, n, j) = len - D]_vars
Stored == (len = n * D /\ start % D = 0 /\ n > 1) => C % Den(n) = 0
=============================================================================
