------------------------------- MODULE Queries -------------------------------
(***************************************************************************)
(* Asking is free: two copies of the same stack receive the same requests;    *)
(* one of them is also asked for its shape, length, file list, remaining      *)
(* steps, whether its loader runs, or for an iterator.  Both must deliver     *)
(* the same, and the answers follow from the history of requests.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* State of one copy as far as an observer can tell: pass, position in it, step in the episode.
\* L: episode length, 0 without episodes
Fresh == [round |-> 0, at |-> 0, t |-> 0]
Ends(s, L) == L > 0 /\ s.t >= L
Got(s) == [s EXCEPT !.at = @ + 1, !.t = @ + 1]
Again(s) == [round |-> s.round + 1, at |-> 0, t |-> 0]
\* cfg: L, n (files), prefetch (0/1), shape
Remaining(c, s) == IF c.L = 0 THEN 1 ELSE c.L - s.t
\* the answer v (a sequence of integers) to question q
Answer(c, s, q, v) ==
    CASE q = "shape" -> v = c.shape
      [] q = "len" -> v = <<IF c.L = 0 THEN c.n ELSE c.L>>
      [] q = "remaining" -> v = <<Remaining(c, s)>>
      [] q = "length" -> v = <<c.L>>
      [] q = "running" -> v \in {<<0>>, <<1>>}
      [] q = "files" -> v = <<1>>          \* 1: exactly what the stack was given (or one episode of it)
      [] q = "iter" -> v \in {<<0>>, <<1>>}  \* itself, or not iterable
      [] OTHER -> FALSE

\* ------------------------------------------------------------------ model
CONSTANTS L, MaxOps, BreakTake, BreakRewind
VARIABLES a, b, outA, outB, n
vars == <<a, b, outA, outB, n>>
Init == a = Fresh /\ b = Fresh /\ outA = <<>> /\ outB = <<>> /\ n = 0
Deliver(s) == IF Ends(s, L) THEN <<"end">> ELSE <<s.round, s.at>>
Step(s) == IF Ends(s, L) THEN s ELSE Got(s)
Count == n < MaxOps /\ n' = n + 1
Get == /\ Count /\ outA' = Append(outA, Deliver(a)) /\ outB' = Append(outB, Deliver(b))
       /\ a' = Step(a) /\ b' = Step(b)
Restart == Count /\ a' = Again(a) /\ b' = Again(b) /\ UNCHANGED <<outA, outB>>
Ask == /\ Count /\ a' = (IF BreakTake THEN [a EXCEPT !.at = @ + 1]
                ELSE IF BreakRewind THEN [a EXCEPT !.t = 0] ELSE a)
       /\ UNCHANGED <<b, outA, outB>>
Next == Get \/ Restart \/ Ask
Spec == Init /\ [][Next]_vars
Undisturbed == outA = outB
=============================================================================
