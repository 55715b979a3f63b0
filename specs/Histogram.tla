------------------------------ MODULE Histogram ------------------------------
(***************************************************************************)
(* Matching an image (a bag of levels) to a target histogram of the same    *)
(* total, with levels 0..Top.  S and T are the cumulative counts.           *)
(* The model maps the levels one after the other, lowest first, and checks  *)
(* the consequences; Strict = TRUE is the broken variant asking the target  *)
(* to exceed the source.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Top, N, Strict
VARIABLES src, tgt, k, map
vars == <<src, tgt, k, map>>
Levels == 0..Top
RECURSIVE Cum(_, _)
Cum(h, l) == IF l < 0 THEN 0 ELSE h[l] + Cum(h, l - 1)
Bags == {h \in [Levels -> 0..N] : Cum(h, Top) = N}
Init == src \in Bags /\ tgt \in Bags /\ k = 0 /\ map = [l \in Levels |-> -1]
Reach(s) == {l \in Levels : IF Strict THEN Cum(tgt, l) > s \/ l = Top ELSE Cum(tgt, l) >= s}
Lowest(S) == CHOOSE l \in S : \A m \in S : l <= m
MapLevel == /\ k <= Top /\ map' = [map EXCEPT ![k] = Lowest(Reach(Cum(src, k)))]
            /\ k' = k + 1 /\ UNCHANGED <<src, tgt>>
Next == MapLevel
Spec == Init /\ [][Next]_vars
Done == k = Top + 1
Out == [m \in Levels |-> LET RECURSIVE Go(_)
                             Go(l) == IF l > Top THEN 0 ELSE (IF map[l] = m THEN src[l] ELSE 0) + Go(l + 1)
                         IN Go(0)]
Monotone == \A a, b \in 0..(k - 1) : a <= b => map[a] <= map[b]
FixedPoint == (Done /\ src = tgt) => \A l \in Levels : src[l] > 0 => map[l] = l
Closest == Done => \A m \in Levels :
             LET below == {Cum(src, l) : l \in -1..Top}
                 fit == {c \in below : c <= Cum(tgt, m)}
             IN  Cum(Out, m) = (CHOOSE c \in fit : \A d \in fit : d <= c)
=============================================================================
