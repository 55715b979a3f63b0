----------------------------- MODULE RealSampler -----------------------------
(***************************************************************************)
(* A real-image sampler over its scheduler stack.  The source produces      *)
(* batches numbered 1, 2, ... N per pass (flat) or, episodic, batch         *)
(* (ep - 1) * L + step; a prefetching layer of capacity Cap (0: none) reads *)
(* ahead.  The sampler hands every batch on; for episodic (or prefetched)   *)
(* stacks it asks the OUTERMOST layer for the steps remaining, before a     *)
(* request to raise the end of the episode and after it for the done flag.  *)
(* AskInner = TRUE is the broken variant that asks the wrapped scheduler,   *)
(* which a read-ahead has already advanced.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, L, Cap, AskInner, MaxOps
VARIABLES ep, step,   \* the source: episode (1.. ; 1 if flat) and batches produced in it
          buf,        \* read-ahead
          got, out,   \* delivered since the last reset / next episode; last answer
          epoch, ops
vars == <<ep, step, buf, got, out, epoch, ops>>
Epi == L > 0
Size == IF Epi THEN L ELSE N
Left == Size - step
Num(e, s) == (e - 1) * Size + s
Init == ep = 1 /\ step = 0 /\ buf = <<>> /\ got = <<>> /\ out = [kind |-> "none"]
        /\ epoch = 1 /\ ops = <<>>
Log(o) == ops' = IF MaxOps > 0 THEN Append(ops, o) ELSE ops
More == MaxOps = 0 \/ Len(ops) < MaxOps
\* the loader reads ahead within the episode (or pass)
Load == /\ Cap > 0 /\ Len(buf) < Cap /\ Left > 0
        /\ buf' = Append(buf, Num(ep, step + 1)) /\ step' = step + 1
        /\ UNCHANGED <<ep, got, out, epoch, ops>>
OuterLeft == Size - Len(got)
InnerLeft == Left
Remaining == IF AskInner THEN InnerLeft ELSE OuterLeft
Ended == [kind |-> "ended"]
Next1 ==
    /\ More
    /\ \/ /\ Epi /\ Remaining = 0 /\ out' = Ended /\ UNCHANGED <<step, buf, got>>
       \/ /\ ~(Epi /\ Remaining = 0)
          /\ \/ /\ Cap = 0 /\ Left > 0
                /\ step' = step + 1 /\ buf' = buf /\ got' = Append(got, Num(ep, step + 1))
                /\ out' = [kind |-> "ok", b |-> Num(ep, step + 1), done |-> Epi /\ step + 1 = Size]
             \/ /\ Cap > 0 /\ buf # <<>>
                /\ buf' = Tail(buf) /\ got' = Append(got, Head(buf)) /\ step' = step
                /\ out' = [kind |-> "ok", b |-> Head(buf),
                           done |-> Epi /\ (IF AskInner THEN Left = 0 ELSE Len(got) + 1 = Size)]
             \/ /\ Left = 0 /\ buf = <<>> /\ out' = Ended /\ UNCHANGED <<step, buf, got>>
    /\ Log("next") /\ UNCHANGED <<ep, epoch>>
ResetAll == /\ More /\ ep' = 1 /\ step' = 0 /\ buf' = <<>> /\ got' = <<>> /\ epoch' = 1
            /\ out' = [kind |-> "none"] /\ Log("reset")
\* resetting the sampler alone: it holds no data of its own
ResetSelf == /\ More /\ out' = [kind |-> "none"] /\ Log("reset_self")
             /\ UNCHANGED <<ep, step, buf, got, epoch>>
NextEpisode == /\ More /\ Epi /\ epoch < 3
               /\ ep' = ep + 1 /\ step' = 0 /\ buf' = <<>> /\ got' = <<>> /\ epoch' = epoch + 1
               /\ out' = [kind |-> "none"] /\ Log("next_episode")
Next == Load \/ Next1 \/ ResetAll \/ ResetSelf \/ NextEpisode
Spec == Init /\ [][Next]_vars
\* everything delivered is the source's stream, from its first batch, in order
PassThrough == got = [k \in 1..Len(got) |-> Num(epoch, k)]
DoneRight == out.kind = "ok" => out.done = (Epi /\ Len(got) = Size)
EndRight == out.kind = "ended" => Len(got) = Size
Emit == MaxOps > 0 /\ Len(ops) = MaxOps => PrintT(<<"SCN", ToJson([ops |-> ops])>>)
=============================================================================
