------------------------------ MODULE Sampler -------------------------------
(***************************************************************************)
(* The synthetic sampler: cached flow batch, batch counter and random key    *)
(* chain over a flat or episodic scheduler, spread over D devices.  Every    *)
(* behaviour must satisfy the monitor of SamplerAbs.                         *)
(*                                                                         *)
(* FixLate: the batch counter restarts only when new data has arrived.       *)
(* FixEpi: one batch per flow batch when the scheduler is episodic.          *)
(* FixSplit: every device draws from its own key.                            *)
(***************************************************************************)
EXTENDS SamplerAbs, TLC, Json

CONSTANTS F, B, D, K, N, V, L, MaxOps, Emitting, FixLate, FixEpi, FixSplit

VARIABLES pos, ep, step,            \* the scheduler
          flows, generated, rng,    \* the sampler
          s, why, n, h
vars == <<pos, ep, step, flows, generated, rng, s, why, n, h>>

KK == IF FixEpi /\ L > 0 THEN 1 ELSE K
C == [seed |-> 1, F |-> F, B |-> B, D |-> D, K |-> IF L > 0 THEN 1 ELSE K, N |-> N, V |-> V,
      L |-> L, pf |-> 0, dig |-> 1, refused |-> 0, free |-> 0, lag |-> 0, per |-> 1]
E0(op, kind) == [op |-> op, lane |-> 1, kind |-> kind, n |-> 0, flow |-> <<>>, move |-> <<>>,
                 mask |-> <<>>, files |-> <<>>, done |-> "none", gets |-> 0, dev |-> 1, d1 |-> <<>>, d2 |-> <<>>]

Init == /\ pos = 0 /\ ep = 1 /\ step = 0 /\ flows = <<>> /\ generated = 0 /\ rng = 0
        /\ s = SInit(<<C>>) /\ why = "" /\ n = 0 /\ h = <<>>

Feed(e) == LET j == On(<<C>>, s, e) IN s' = j.s /\ why' = j.why
Log(op) == h' = IF Emitting THEN Append(h, op) ELSE h
Op(op) == why = "" /\ n < MaxOps /\ n' = n + 1 /\ Log(op)

Remaining == L - step
SchedulerHas == IF L > 0 THEN step < L ELSE pos < N
\* first flow number - 1 of the scheduler's next batch, and how many are valid
Base == IF L > 0 THEN (((ep - 1) * L) + step) * F ELSE pos * F
NextValid == IF L = 0 /\ pos + 1 = N THEN V ELSE F

Rows == ((B + D - 1) \div D) * D
Local == Rows \div D
FPad == IF F % D = 0 THEN F ELSE ((F \div D) + 1) * D
LF == FPad \div D
\* flow entry used by global sample i: device (i-1) \div Local, local index modulo its share
Entry(i) == LET dev == (i - 1) \div Local
                loc == ((i - 1) % Local) % LF
            IN  (((dev * LF) + loc) % F) + 1
Batch(fl, r, last, gets) ==
    LET tag(i) == Tag(Num(fl[1], fl[2], Entry(i)))
        key(i) == IF FixSplit THEN i ELSE ((i - 1) % Local) + 1
    IN [E0("next", "ok") EXCEPT
         !.n = Rows, !.flow = [i \in 1..Rows |-> tag(i)], !.move = [i \in 1..Rows |-> tag(i)],
         !.mask = [j \in 1..F |-> IF j <= fl[2] THEN 1 ELSE 0],
         !.files = [j \in 1..F |-> Num(fl[1], fl[2], j)],
         !.done = IF L = 0 THEN "none" ELSE IF last THEN "true" ELSE "false",
         !.gets = gets,
         !.d1 = [i \in 1..Rows |-> r * 100 + key(i)],
         !.d2 = [i \in 1..Rows |-> (r * 100 + key(i)) * 100 + tag(i)]]

EpisodeOver == /\ Op("next") /\ L > 0 /\ Remaining = 0 /\ Feed(E0("next", "episode_end"))
               /\ UNCHANGED <<pos, ep, step, flows, generated, rng>>
Need == flows = <<>> \/ generated >= KK
Cached == /\ Op("next") /\ ~(L > 0 /\ Remaining = 0) /\ ~Need
          /\ Feed(Batch(flows, rng, L > 0 /\ Remaining = 0, 0))
          /\ generated' = generated + 1 /\ rng' = rng + 1
          /\ UNCHANGED <<pos, ep, step, flows>>
Fetch == /\ Op("next") /\ ~(L > 0 /\ Remaining = 0) /\ Need /\ SchedulerHas
         /\ flows' = <<Base, NextValid>> /\ generated' = 1 /\ rng' = rng + 1
         /\ IF L > 0 THEN step' = step + 1 /\ pos' = pos ELSE pos' = pos + 1 /\ step' = step
         /\ Feed(Batch(<<Base, NextValid>>, rng, L > 0 /\ step + 1 = L, 1))
         /\ ep' = ep
Exhausted == /\ Op("next") /\ L = 0 /\ Need /\ ~SchedulerHas
             /\ generated' = IF FixLate THEN generated ELSE 0
             /\ Feed(E0("next", "stop")) /\ UNCHANGED <<pos, ep, step, flows, rng>>
Reset == /\ Op("reset") /\ flows' = <<>> /\ generated' = 0 /\ rng' = 0
         /\ pos' = 0 /\ ep' = 1 /\ step' = 0 /\ Feed(E0("reset", "ok"))
ResetSelf == /\ Op("reset_self") /\ flows' = <<>> /\ generated' = 0 /\ rng' = 0
             /\ Feed(E0("reset_self", "ok")) /\ UNCHANGED <<pos, ep, step>>
NextEpisode == /\ Op("next_episode") /\ L > 0 /\ ep' = ep + 1 /\ step' = 0
               /\ Feed(E0("next_episode", "ok")) /\ UNCHANGED <<pos, flows, generated, rng>>
Next == EpisodeOver \/ Cached \/ Fetch \/ Exhausted \/ Reset \/ ResetSelf \/ NextEpisode
Spec == Init /\ [][Next]_vars

Allowed == why = ""
Emit == (Emitting /\ n = MaxOps) => PrintT(<<"SCN", ToJson([ops |-> h])>>)
=============================================================================
