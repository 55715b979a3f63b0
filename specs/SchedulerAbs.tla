---------------------------- MODULE SchedulerAbs ----------------------------
(***************************************************************************)
(* What a user of a flow-field scheduler observes: a stream of slices cut  *)
(* into batches.                                                           *)
(*                                                                         *)
(* A configuration is a record                                             *)
(*   list : the file list, a sequence of file ids, possibly with           *)
(*          repetitions,                                                   *)
(*   n    : number of slices per file id (a sequence indexed by id),       *)
(*   loop, rand : the options.                                             *)
(* A slice is <<file, index>>, index from 0.                               *)
(* The abstract state is a record                                          *)
(*   ok  : whether each file can currently be loaded (faults come and go), *)
(*   rem : entries of the current pass whose turn has not come yet,        *)
(*   cur, pos : the file being delivered (0: none) and its next slice.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Fresh(c, ok) == [ok |-> ok, rem |-> c.list, cur |-> 0, pos |-> 0]

Deliverable(c, st, f) == st.ok[f] /\ c.n[f] > 0

Live(c, st, s) == SelectSeq(s, LAMBDA f : Deliverable(c, st, f))

LeftInFile(c, st) == IF st.cur = 0 THEN 0 ELSE c.n[st.cur] - st.pos

RECURSIVE SumN(_, _)
SumN(c, s) == IF s = <<>> THEN 0 ELSE c.n[Head(s)] + SumN(c, Tail(s))

LeftInPass(c, st) == LeftInFile(c, st) + SumN(c, Live(c, st, st.rem))
PassSize(c, st)   == SumN(c, Live(c, st, c.list))

Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* Positions of `s` at which the pass may go on: without shuffling the first
\* loadable entry, with shuffling any loadable entry.
Starts(c, st, s) ==
    LET live == {i \in 1..Len(s) : Deliverable(c, st, s[i])}
    IN  IF c.rand THEN live ELSE {i \in live : \A j \in live : i <= j}

\* Entries left after beginning position i of s.
After(c, s, i) == IF c.rand THEN Remove(s, i) ELSE SubSeq(s, i + 1, Len(s))

\* The stop state: the pass is over.
Over(st) == [st EXCEPT !.rem = <<>>, !.cur = 0, !.pos = 0]
Bad      == [ok |-> <<>>, rem |-> <<>>, cur |-> 0, pos |-> 99]

\* Deliver slice x: the next state, or Bad if x may not come next.
Deliver(c, st, x) ==
    IF LeftInFile(c, st) > 0
    THEN IF x = <<st.cur, st.pos>> THEN [st EXCEPT !.pos = @ + 1] ELSE Bad
    ELSE LET src == IF Starts(c, st, st.rem) # {} THEN st.rem
                    ELSE IF c.loop THEN c.list ELSE <<>>
             is  == {i \in Starts(c, st, src) : src[i] = x[1]}
         IN  IF x[2] # 0 \/ is = {} THEN Bad
             ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j
                  IN  [st EXCEPT !.rem = After(c, src, i), !.cur = x[1], !.pos = 1]

RECURSIVE DeliverAll(_, _, _)
DeliverAll(c, st, xs) ==
    IF xs = <<>> \/ st = Bad THEN st
    ELSE DeliverAll(c, Deliver(c, st, Head(xs)), Tail(xs))

\* How many slices a request for n gets (0: it is refused).
Expected(c, st, n) ==
    IF c.loop
    THEN IF PassSize(c, st) > 0 \/ LeftInPass(c, st) >= n THEN n ELSE 0
    ELSE IF LeftInPass(c, st) < n THEN LeftInPass(c, st) ELSE n

\* The verdict on one request for n: kind is "ok" (with the delivered slices
\* xs), "stop" (end of data), "error", or anything else.
\* Result: [why |-> "" or the reason for rejection, st |-> next state].
JudgeGet(c, st, n, kind, xs) ==
    LET k == Expected(c, st, n)
        s2 == DeliverAll(c, st, xs)
    IN  IF k = 0
        THEN IF c.loop
             THEN IF kind \in {"stop", "error"} THEN [why |-> "", st |-> Over(st)]
                  ELSE [why |-> "unreadable-set-must-end", st |-> st]
             ELSE IF kind = "stop" THEN [why |-> "", st |-> Over(st)]
                  ELSE [why |-> "end-not-signalled", st |-> st]
        ELSE IF kind # "ok" THEN [why |-> "request-refused", st |-> st]
        ELSE IF Len(xs) # k THEN [why |-> "wrong-number-of-slices", st |-> st]
        ELSE IF s2 = Bad THEN [why |-> "wrong-slice", st |-> st]
        ELSE [why |-> "", st |-> IF k < n THEN Over(s2) ELSE s2]

DoReset(c, st)    == Fresh(c, st.ok)
SetOk(st, f, b)   == [st EXCEPT !.ok[f] = b]
=============================================================================
