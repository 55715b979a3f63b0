---------------------------- MODULE HistogramTrace ----------------------------
(***************************************************************************)
(* Monitor for P24.  An event: the levels of the image's pixels with their  *)
(* counts (src, sorted <<level, count>>), the target (tgt, likewise, zero   *)
(* counts left out, total tot), and for every source level the set of       *)
(* levels its pixels were given (out: <<source level, level, count>>).      *)
(* A pixel's level is its value rounded down (whole = 1: whole values only). *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev
RECURSIVE Upto(_, _)
Upto(h, l) == IF h = <<>> \/ Head(h)[1] > l THEN 0 ELSE Head(h)[2] + Upto(Tail(h), l)
\* lowest level whose cumulative target reaches the source's (shares: both totals agree)
RECURSIVE Target(_, _, _)
Target(h, s, c) == IF h = <<>> THEN 255
                   ELSE IF c + Head(h)[2] >= s THEN Head(h)[1] ELSE Target(Tail(h), s, c + Head(h)[2])
Why(e) ==
    IF e.kind # "ok" THEN "call-fails"
    ELSE IF e.form # 1 THEN "shape-or-type"
    ELSE IF \E o \in 1..Len(e.out) : e.out[o][2] \notin 0..255 THEN "not-a-level"
    ELSE IF \E a, b \in 1..Len(e.out) : e.out[a][1] = e.out[b][1] /\ e.out[a][2] # e.out[b][2]
         THEN "equal-pixels-differ"
    ELSE IF \E a, b \in 1..Len(e.out) : e.out[a][1] < e.out[b][1] /\ e.out[a][2] > e.out[b][2]
         THEN "order-reversed"
    ELSE IF \E o \in 1..Len(e.out) : e.out[o][2] # Target(e.tgt, Upto(e.src, e.out[o][1]), 0)
         THEN "other-level"
    ELSE IF e.whole = 1 /\ e.src = e.tgt /\ \E o \in 1..Len(e.out) : e.out[o][1] # e.out[o][2] THEN "matching-image-changed"
    ELSE ""
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
