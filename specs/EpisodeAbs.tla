----------------------------- MODULE EpisodeAbs -----------------------------
(***************************************************************************)
(* What a user of an episodic scheduler observes.  A configuration is      *)
(*   lens : usable frames of each sequence, B : lanes, L : episode length. *)
(* A cell is <<sequence, frame>> (frames from 1).  The state is the step t *)
(* of the current episode and the cells last delivered (<<>> at t = 0).    *)
(***************************************************************************)
EXTENDS Integers, Sequences

EpStart == [t |-> 0, at |-> <<>>]
Admissible(c, x) == x[1] \in 1..Len(c.lens) /\ x[2] >= 1 /\ x[2] + c.L - 1 <= c.lens[x[1]]
Starts(c) == {<<d, s>> \in (1..Len(c.lens)) \X (1..100) : Admissible(c, <<d, s>>)}
Rejected(c) == \E d \in 1..Len(c.lens) : c.lens[d] < c.L

JudgeStep(c, st, kind, cells) ==
    IF st.t >= c.L
    THEN [why |-> IF kind = "episode_end" THEN "" ELSE "end-of-episode-not-signalled", st |-> st]
    ELSE IF kind # "ok" THEN [why |-> "step-refused", st |-> st]
    ELSE IF Len(cells) # c.B THEN [why |-> "batch-size", st |-> st]
    ELSE IF \E k \in 1..c.B : cells[k][1] \notin 1..Len(c.lens) THEN [why |-> "unlisted-file", st |-> st]
    ELSE IF st.t = 0 /\ \E k \in 1..c.B : ~Admissible(c, cells[k])
         THEN [why |-> "inadmissible-start", st |-> st]
    ELSE IF st.t > 0 /\ \E k \in 1..c.B : cells[k] # <<st.at[k][1], st.at[k][2] + 1>>
         THEN [why |-> "not-contiguous", st |-> st]
    ELSE [why |-> "", st |-> [t |-> st.t + 1, at |-> cells]]
=============================================================================
