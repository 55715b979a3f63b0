------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* A whole pipeline: files -> scheduler (with episodes of L batches, L = 0: *)
(* one pass of N batches) -> read-ahead of Cap batches (0: none) by a       *)
(* loader -> sampler that serves each flow batch K times -> user, who asks  *)
(* for batches, resets all layers or the sampler alone, requests the next   *)
(* episode and shuts everything down.                                       *)
(*                                                                         *)
(* Mode: "right"; "stale" - a reset keeps what was read ahead; "cache" - a  *)
(* reset keeps the sampler's flow batch; "stay" - the loader survives a     *)
(* shutdown; "again" - a flow batch is served once too often.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, L, Cap, K, Mode, MaxOps
VARIABLES ep, step,     \* source: episode and batches read in it
          buf, loader,  \* read-ahead, loader alive
          cur, served,  \* the sampler's flow batch and how often it was served
          got, cut,     \* delivered since the last (re)start; batches dropped half-used
          epoch, out, down, ops
vars == <<ep, step, buf, loader, cur, served, got, cut, epoch, out, down, ops>>
Epi == L > 0
Size == IF Epi THEN L ELSE N
Num(e, s) == ((e - 1) * Size) + s
Init == /\ ep = 1 /\ step = 0 /\ buf = <<>> /\ loader = FALSE /\ cur = 0 /\ served = 0 /\ got = <<>> /\ cut = {}
        /\ epoch = 1 /\ out = "none" /\ down = FALSE /\ ops = <<>>
Log(o) == ops' = IF MaxOps > 0 THEN Append(ops, o) ELSE ops
More == MaxOps = 0 \/ Len(ops) < MaxOps
Load == /\ loader /\ Len(buf) < Cap /\ step < Size
        /\ buf' = Append(buf, Num(ep, step + 1)) /\ step' = step + 1
        /\ UNCHANGED <<ep, loader, cur, served, got, cut, epoch, out, down, ops>>
\* the first request starts the loader
Begin == /\ Cap > 0 /\ ~loader /\ ~down /\ loader' = TRUE
         /\ UNCHANGED <<ep, step, buf, cur, served, got, cut, epoch, out, down, ops>>
Limit == IF Mode = "again" /\ cur = 1 THEN K + 1 ELSE K
Need == cur = 0 \/ served >= Limit
Serve == /\ More /\ ~down /\ ~Need /\ served' = served + 1 /\ got' = Append(got, cur) /\ out' = "ok"
         /\ Log("next") /\ UNCHANGED <<ep, step, buf, loader, cur, cut, epoch, down>>
Take(b) == cur' = b /\ served' = 1 /\ got' = Append(got, b) /\ out' = "ok"
Fetch == /\ More /\ ~down /\ Need
         /\ \/ Cap = 0 /\ step < Size /\ step' = step + 1 /\ buf' = buf /\ Take(Num(ep, step + 1))
            \/ Cap > 0 /\ loader /\ buf # <<>> /\ buf' = Tail(buf) /\ step' = step /\ Take(Head(buf))
         /\ Log("next") /\ UNCHANGED <<ep, loader, cut, epoch, down>>
End == /\ More /\ ~down /\ Need /\ step = Size /\ buf = <<>> /\ out' = "ended"
       /\ Log("next") /\ UNCHANGED <<ep, step, buf, loader, cur, served, got, cut, epoch, down>>
Restart == got' = <<>> /\ cut' = {} /\ out' = "none"
ResetAll == /\ More /\ Restart /\ ep' = 1 /\ step' = 0 /\ epoch' = 1 /\ loader' = FALSE /\ down' = FALSE
            /\ buf' = (IF Mode = "stale" THEN buf ELSE <<>>)
            /\ (IF Mode = "cache" THEN UNCHANGED <<cur, served>> ELSE cur' = 0 /\ served' = 0)
            /\ Log("reset")
ResetSelf == /\ More /\ ~down /\ cur' = 0 /\ served' = 0 /\ out' = "none"
             /\ cut' = (IF cur # 0 /\ served < K THEN cut \cup {cur} ELSE cut)
             /\ Log("reset_self") /\ UNCHANGED <<ep, step, buf, loader, got, epoch, down>>
NextEpisode == /\ More /\ ~down /\ Epi /\ epoch < 3 /\ Restart
               /\ ep' = ep + 1 /\ step' = 0 /\ buf' = <<>> /\ epoch' = epoch + 1
               /\ Log("next_episode") /\ UNCHANGED <<loader, cur, served, down>>
Shutdown == /\ More /\ ~down /\ down' = TRUE /\ loader' = (Mode = "stay" /\ loader) /\ out' = "none"
            /\ Log("shutdown") /\ UNCHANGED <<ep, step, buf, cur, served, got, cut, epoch>>
Next == Load \/ Begin \/ Serve \/ Fetch \/ End \/ ResetAll \/ ResetSelf \/ NextEpisode \/ Shutdown
Spec == Init /\ [][Next]_vars
Times(b) == Cardinality({k \in 1..Len(got) : got[k] = b})
\* the delivered flow batches are the source's, from the first, none skipped, each K times
InOrder == /\ got = <<>> \/ got[1] = Num(epoch, 1)
           /\ \A k \in 1..(Len(got) - 1) : got[k + 1] \in {got[k], got[k] + 1}
Share == \A k \in 1..Len(got) :
            /\ Times(got[k]) <= K
            /\ (got[k] < got[Len(got)] /\ got[k] \notin cut) => Times(got[k]) = K
Complete == out = "ended" => /\ got # <<>> \/ Size = 0
                             /\ got # <<>> => got[Len(got)] = Num(epoch, Size)
Quiet == down => ~loader
Emit == MaxOps > 0 /\ Len(ops) = MaxOps => PrintT(<<"SCN", ToJson([ops |-> ops])>>)
=============================================================================
