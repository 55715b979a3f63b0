------------------------------ MODULE Episodes ------------------------------
(***************************************************************************)
(* EpisodicFlowFieldScheduler over a base scheduler: the episodes are laid *)
(* out time-major in the base scheduler's file list, whose cursor then     *)
(* delivers them.  The base scheduler may shuffle its list on reset and    *)
(* may loop.  EpisodeAbs runs in lockstep.                                 *)
(* FixOrder = FALSE: the list is injected before the base reset (the       *)
(* historical defect).  FixCount = FALSE: a next-episode request at the    *)
(* start of an episode is ignored in the counter only (a mutant).          *)
(***************************************************************************)
EXTENDS EpisodeAbs, FiniteSets, TLC, Json

CONSTANTS Lens, B, L, FixOrder, MaxOps, ShuffleBase
VARIABLES order, cur, t, st, why, h
vars == <<order, cur, t, st, why, h>>

Cfg == [lens |-> Lens, B |-> B, L |-> L]
Interleave(s) == [i \in 1..(B * L) |->
                    LET step == (i - 1) \div B
                        ep == ((i - 1) % B) + 1
                    IN  <<s[ep][1], s[ep][2] + step>>]
Perms(s) == {[i \in 1..Len(s) |-> s[p[i]]] : p \in Permutations(1..Len(s))}
Drawn == \E s \in [1..B -> Starts(Cfg)] :
            order' \in (IF ShuffleBase /\ ~FixOrder THEN Perms(Interleave(s)) ELSE {Interleave(s)})

Init == /\ order \in {Interleave(s) : s \in [1..B -> Starts(Cfg)]}
        /\ cur = 0 /\ t = 0 /\ st = EpStart /\ why = "" /\ h = <<>>
Log(x) == h' = IF MaxOps = 0 THEN h ELSE Append(h, x)
Open == MaxOps = 0 \/ Len(h) < MaxOps

Step == /\ Open /\ t < L
        /\ LET cells == SubSeq(order, cur + 1, cur + B)
               j == JudgeStep(Cfg, st, "ok", cells)
           IN  st' = j.st /\ why' = j.why
        /\ cur' = cur + B /\ t' = t + 1 /\ Log("get") /\ UNCHANGED order
End ==  /\ Open /\ t >= L
        /\ LET j == JudgeStep(Cfg, st, "episode_end", <<>>) IN st' = j.st /\ why' = j.why
        /\ Log("get") /\ UNCHANGED <<order, cur, t>>
Fresh(name) == /\ Open /\ Drawn /\ cur' = 0 /\ t' = 0 /\ st' = EpStart /\ Log(name) /\ UNCHANGED why
NextEpisode == Fresh("next")
Reset == Fresh("reset")
Next == Step \/ End \/ NextEpisode \/ Reset
Spec == Init /\ [][Next]_vars

Allowed == why = ""
CounterMatches == L - t = L - st.t /\ cur = B * t
Lockstep == cur + B * (L - t) = Len(order)
Emit == (MaxOps > 0 /\ Len(h) = MaxOps) => PrintT(<<"SCN", ToJson([ops |-> h])>>)
=============================================================================
