------------------------------- MODULE Shuffle -------------------------------
(***************************************************************************)
(* Shuffled passes.  A scheduler draws one permutation per pass from its   *)
(* key chain and applies it to its current order; `Draw` is uninterpreted  *)
(* (any fixed table of permutations).  Checked: the order of pass p is a   *)
(* function of (key, p) alone, whatever mix of resets and wraps led there, *)
(* and always a permutation.  LazyReset = TRUE models a plausible but      *)
(* wrong optimisation (a reset before the first slice draws nothing).      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, MaxPass, Keys, LazyReset, MaxOps
VARIABLES key, pass, draws, order, pos, h
vars == <<key, pass, draws, order, pos, h>>

Id == [i \in 1..N |-> i]
\* Some fixed table of permutations: rotations and reversals mixed by key and index.
Rot(k, d) == [i \in 1..N |-> ((i + k + 2 * d - 2) % N) + 1]
Rev(s) == [i \in 1..N |-> s[N + 1 - i]]
Draw(k, d) == IF (k + d) % 2 = 0 THEN Rot(k, d) ELSE Rev(Rot(k, d))
Apply(p, s) == [i \in 1..N |-> s[p[i]]]

RECURSIVE OrderOf(_, _)
OrderOf(k, p) == IF p = 0 THEN Id ELSE Apply(Draw(k, p), OrderOf(k, p - 1))

Init == /\ key \in Keys /\ pass = 1 /\ draws = 1 /\ pos = 0
        /\ order = Apply(Draw(key, 1), Id) /\ h = <<>>
Log(x) == h' = IF MaxOps = 0 THEN h ELSE Append(h, x)
Open == MaxOps = 0 \/ Len(h) < MaxOps
Next1 == /\ Open /\ pos < N /\ pos' = pos + 1 /\ Log("get") /\ UNCHANGED <<key, pass, draws, order>>
NewPass == IF LazyReset /\ pos = 0
           THEN UNCHANGED <<draws, order>>
           ELSE draws' = draws + 1 /\ order' = Apply(Draw(key, draws + 1), order)
Reset == /\ Open /\ pass < MaxPass /\ pass' = pass + 1 /\ pos' = 0 /\ NewPass
         /\ Log("reset") /\ UNCHANGED key
\* The wrap of a looping scheduler: happens inside the request for the next slice.
Wrap == /\ Open /\ pos = N /\ pass < MaxPass /\ pass' = pass + 1 /\ pos' = 1 /\ NewPass
        /\ Log("get") /\ UNCHANGED key
Next == Next1 \/ Reset \/ Wrap
Spec == Init /\ [][Next]_vars

FunctionOfPass == order = OrderOf(key, pass)
IsPermutation  == {order[i] : i \in 1..N} = 1..N
Emit == (MaxOps > 0 /\ Len(h) = MaxOps) => PrintT(<<"SCN", ToJson([ops |-> h])>>)
=============================================================================
