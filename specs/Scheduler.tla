------------------------------ MODULE Scheduler ------------------------------
(***************************************************************************)
(* The cursor loop of BaseFlowFieldScheduler (_get_next / get_batch /      *)
(* reset), one action per branch, with files that break and recover        *)
(* between requests.  `st` runs the abstract scheduler (SchedulerAbs) in   *)
(* lockstep: every returned batch must be one the abstraction allows.      *)
(*                                                                         *)
(* FixDup / FixLoop are TRUE for the code as it is; setting one *)
(* to FALSE restores a historical defect, which TLC must refute.           *)
(***************************************************************************)
EXTENDS SchedulerAbs, FiniteSets, TLC, Json

CONSTANTS Slices,      \* slices per file id
          Modes,       \* set of <<loop, rand>>
          MaxList,     \* longest file list
          MaxBatch,
          Faults,      \* may files break and recover?
          MaxOps,      \* 0: unbounded histories, no scenarios
          FixDup, FixLoop

VARIABLES cfg, ok, order, idx, cached, sidx, pc, want, got, wrapped, st, why, h
vars == <<cfg, ok, order, idx, cached, sidx, pc, want, got, wrapped, st, why, h>>

Files == 1..Len(Slices)
Lists == UNION {[1..k -> Files] : k \in 1..MaxList}
Perms(s) == {[i \in 1..Len(s) |-> s[p[i]]] : p \in Permutations(1..Len(s))}

Init ==
    /\ \E l \in Lists, m \in Modes :
          cfg = [list |-> l, n |-> Slices, loop |-> m[1], rand |-> m[2]]
    /\ ok \in (IF Faults THEN {[f \in Files |-> TRUE]} ELSE [Files -> BOOLEAN])
    /\ \A f \in Files : (\A i \in 1..Len(cfg.list) : cfg.list[i] # f) => ok[f]
    /\ order \in (IF cfg.rand THEN Perms(cfg.list) ELSE {cfg.list})
    /\ idx = 1 /\ cached = 0 /\ sidx = 0
    /\ pc = "idle" /\ want = 0 /\ got = <<>> /\ wrapped = FALSE
    /\ st = Fresh(cfg, ok) /\ why = ""
    /\ h = <<>>

Log(op) == h' = IF MaxOps = 0 THEN h ELSE Append(h, op)
Open == pc = "idle" /\ (MaxOps = 0 \/ Len(h) < MaxOps)

Call == \E n \in 1..MaxBatch :
    /\ Open
    /\ pc' = "get" /\ want' = n /\ got' = <<>> /\ wrapped' = FALSE
    /\ Log(<<"get", n>>)
    /\ UNCHANGED <<cfg, ok, order, idx, cached, sidx, st, why>>

Restart ==
    /\ idx' = 1 /\ sidx' = 0 /\ cached' = 0
    /\ order' \in (IF cfg.rand THEN Perms(order) ELSE {order})

Reset ==
    /\ Open /\ Restart
    /\ st' = DoReset(cfg, st)
    /\ Log(<<"reset", 0>>)
    /\ UNCHANGED <<cfg, ok, pc, want, got, wrapped, why>>

Flip == \E f \in Files :
    /\ Faults /\ Open /\ ~cfg.rand
    /\ ok' = [ok EXCEPT ![f] = ~@]
    /\ st' = SetOk(st, f, ok'[f])
    /\ Log(<<IF ok'[f] THEN "repair" ELSE "break", f>>)
    /\ UNCHANGED <<cfg, order, idx, cached, sidx, pc, want, got, wrapped, why>>

Running == pc = "get" /\ Len(got) < want
AtEnd == idx > Len(order)

Finish(kind) ==
    LET j == JudgeGet(cfg, st, want, kind, got)
    IN  /\ pc' = "idle" /\ want' = 0 /\ got' = <<>> /\ wrapped' = FALSE
        /\ st' = j.st /\ why' = j.why

Wrap ==
    /\ Running /\ AtEnd /\ cfg.loop /\ (FixLoop => ~wrapped)
    /\ Restart /\ wrapped' = FixLoop
    /\ UNCHANGED <<cfg, ok, pc, want, got, st, why, h>>
Dead ==
    /\ Running /\ AtEnd /\ cfg.loop /\ wrapped
    /\ Finish("error")
    /\ UNCHANGED <<cfg, ok, order, idx, cached, sidx, h>>
Exhaust ==
    /\ Running /\ AtEnd /\ ~cfg.loop
    /\ Finish(IF got = <<>> THEN "stop" ELSE "ok")
    /\ UNCHANGED <<cfg, ok, order, idx, cached, sidx, h>>
LoadFail ==
    /\ Running /\ ~AtEnd /\ cached # order[idx] /\ ~ok[order[idx]]
    /\ cached' = 0 /\ idx' = idx + 1
    /\ UNCHANGED <<cfg, ok, order, sidx, pc, want, got, wrapped, st, why, h>>
LoadOk ==
    /\ Running /\ ~AtEnd /\ cached # order[idx] /\ ok[order[idx]]
    /\ cached' = order[idx] /\ sidx' = 0
    /\ UNCHANGED <<cfg, ok, order, idx, pc, want, got, wrapped, st, why, h>>
Slice ==
    /\ Running /\ ~AtEnd /\ cached = order[idx] /\ sidx < cfg.n[cached]
    /\ got' = Append(got, <<cached, sidx>>) /\ sidx' = sidx + 1
    /\ wrapped' = FALSE
    /\ UNCHANGED <<cfg, ok, order, idx, cached, pc, want, st, why, h>>
FileEnd ==
    /\ Running /\ ~AtEnd /\ cached = order[idx] /\ sidx >= cfg.n[cached]
    /\ idx' = idx + 1
    /\ cached' = IF FixDup THEN 0 ELSE cached
    /\ UNCHANGED <<cfg, ok, order, sidx, pc, want, got, wrapped, st, why, h>>
Return ==
    /\ pc = "get" /\ Len(got) = want
    /\ Finish("ok")
    /\ UNCHANGED <<cfg, ok, order, idx, cached, sidx, h>>

Work == Wrap \/ Dead \/ Exhaust \/ LoadFail \/ LoadOk \/ Slice \/ FileEnd \/ Return
Next == Call \/ Reset \/ Flip \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

----------------------------------------------------------------------------
Allowed    == why = ""
Terminates == (pc = "get") ~> (pc = "idle")
TypeOK     == /\ idx \in 1..(MaxList + 1) /\ cached \in 0..Len(Slices)
              /\ pc \in {"idle", "get"} /\ Len(got) <= want
\* The cursor always stands for the abstract position.
InStep     == (pc = "idle" /\ why = "" /\ ~cfg.rand /\ cached # 0)
                  => (st.cur = cached /\ st.pos = sidx)

\* Scenario output: printed when a history is complete.
Done == pc = "idle" /\ MaxOps > 0 /\ Len(h) = MaxOps
Emit == Done => PrintT(<<"SCN", ToJson([list |-> cfg.list, loop |-> cfg.loop,
                                        rand |-> cfg.rand, ok |-> st.ok, ops |-> h])>>)
=============================================================================
