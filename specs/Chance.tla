-------------------------------- MODULE Chance --------------------------------
(***************************************************************************)
(* Random draws.  The machine derives the key of every draw of a few batches   *)
(* the way the generator does (split per batch, fold in the sample, split per  *)
(* quantity, split again) and records which keys were used: two draws are      *)
(* independent exactly if their keys differ.  The operators judge counts        *)
(* measured on real draws (six standard deviations).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* counts of n draws in equally likely classes
Flat(s) == LET n == Sum(s)  k == Len(s)
           IN  \A j \in 1..k : LET d == Abs(k * s[j] - n) IN
                   d <= 3 * k \/ (d < 40000 /\ d * d <= 36 * n * (k - 1))
\* of n draws, m happened with probability p percent
Share(m, n, p) == LET d == Abs(100 * m - n * p)
                  IN  d <= 200 \/ (d < 40000 /\ d * d <= 36 * n * p * (100 - p))
\* counts of two quantities together: rows and columns are independent
Row(t, j) == Sum(t[j])
RECURSIVE Col(_, _)
Col(t, k) == IF t = <<>> THEN 0 ELSE t[1][k] + Col(Tail(t), k)
RECURSIVE All(_)
All(t) == IF t = <<>> THEN 0 ELSE Sum(t[1]) + All(Tail(t))
Apart(t) ==
    LET n == All(t) IN
    n > 0 => \A j \in 1..Len(t), k \in 1..Len(t[1]) :
        LET r == Row(t, j)  c == Col(t, k)
            d == Abs(t[j][k] - (r * c) \div n)
            v == ((((r * c) \div n) + 1) * ((((n - r) * (n - c)) \div n) + 1)) \div n
        IN  d <= 4 \/ d * d <= 36 * (v + 1)

\* ------------------------------------------------------------------ model
CONSTANTS Batches, Samples, BreakFold, BreakShare, BreakCall
\* draws of one sample: place, hiding and noise of the two images, particles, ranges
Quants == {"place", "hide1", "hide2", "noise1", "noise2", "dx", "dy", "rho", "peak",
           "vdx", "vdy", "vrho", "vpeak", "range1", "range2", "range3"}
Index == [q \in Quants |-> CASE q = "hide1" -> 1 [] q = "hide2" -> 2 [] q = "place" -> 3
            [] q = "noise1" -> 5 [] q = "noise2" -> (IF BreakShare THEN 5 ELSE 6)
            [] q = "range1" -> 7 [] q = "range2" -> 8 [] q = "range3" -> 9 [] OTHER -> 4]
Second == [q \in Quants |-> CASE q = "dx" -> 1 [] q = "dy" -> 2 [] q = "rho" -> 3 [] q = "peak" -> 4
            [] q = "vdx" -> 5 [] q = "vdy" -> 6 [] q = "vrho" -> 7 [] q = "vpeak" -> 8 [] OTHER -> 0]
VARIABLES batch, root, sample, left, used, reuse
vars == <<batch, root, sample, left, used, reuse>>
Init == batch = 1 /\ root = <<>> /\ sample = 0 /\ left = {"density"} /\ used = {} /\ reuse = FALSE
\* a key is the path of its derivation; root grows by one split for each batch
Key(q) == IF q = "density" THEN Append(root, 1)
          ELSE root \o <<0>> \o <<IF BreakFold THEN 0 ELSE 100 + sample, Index[q], Second[q]>>
NextSample == /\ left = {} /\ sample < Samples /\ sample' = sample + 1 /\ left' = Quants
              /\ UNCHANGED <<batch, root, used, reuse>>
NextBatch == /\ left = {} /\ sample = Samples /\ batch < Batches /\ batch' = batch + 1
             /\ root' = (IF BreakCall THEN root ELSE Append(root, 50)) /\ sample' = 0 /\ left' = {"density"}
             /\ UNCHANGED <<used, reuse>>
\* draws commute: take them in a fixed order
Order(q) == IF q = "density" THEN 0 ELSE 20 * Index[q] + Second[q]
Least == left # {} /\ LET q == CHOOSE q \in left : \A p \in left : Order(q) <= Order(p) IN
            /\ left' = left \ {q} /\ reuse' = (reuse \/ Key(q) \in used) /\ used' = used \cup {Key(q)}
            /\ UNCHANGED <<batch, root, sample>>
Next == Least \/ NextSample \/ NextBatch
Spec == Init /\ [][Next]_vars
Fresh == ~reuse
=============================================================================
