---------------------------- MODULE PipelineTrace ----------------------------
(***************************************************************************)
(* Monitor for P35: pipelines built by the factory over real files.  Flow   *)
(* batches are judged by SchedulerAbs (flat) or EpisodeAbs (episodic), on   *)
(* top of it the sampler's own layer.  Configuration: list, n, ok, loop,    *)
(* rand, lens (see there), F: flows per flow batch (B for EpisodeAbs), S:   *)
(* samples per batch, K: batches per flow batch, L, pf, syn (1: synthetic). *)
(*                                                                         *)
(* A next event: kind, cells: the slice <<file, index>> (episodes:          *)
(* <<sequence, frame>>) of the returned flow per sample, move: that of the  *)
(* motion (or of the images) per sample, labels and mask per flow, done,    *)
(* params, late (1: gave up only after the whole time-out).                 *)
(***************************************************************************)
EXTENDS SchedulerAbs, TLC, Json, IOUtils
Epi == INSTANCE EpisodeAbs
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, s, verdict
C == Traces[tr].cfg
Ev == Traces[tr].ev
Zero == <<0, 0>>
Start == [st |-> IF C.L > 0 THEN Epi!EpStart ELSE Fresh(C, C.ok), cur |-> <<>>, served |-> 0, down |-> FALSE]
\* the flow batch behind a batch of samples
Flows(e) == SubSeq(e.cells, 1, C.F)
Real(x) == SelectSeq(x, LAMBDA q : q # Zero)
Label(x) == IF C.L > 0 THEN x ELSE <<x[1], 0>>
Content(e, f) ==
    LET k == Len(Real(f)) IN
    IF Len(e.cells) # C.S \/ Len(e.move) # C.S THEN "batch-size"
    ELSE IF \E j \in 1..C.F : (f[j] = Zero) # (j > k) THEN "padding-not-at-end"
    ELSE IF \E j \in 1..C.S : e.cells[j] # f[((j - 1) % C.F) + 1] THEN "flow-pairing"
    ELSE IF e.mask # [j \in 1..C.F |-> IF j <= k THEN 1 ELSE 0] THEN "mask"
    ELSE IF e.labels # [j \in 1..C.F |-> Label(f[j])] THEN "labels"
    ELSE IF e.move # e.cells THEN "images-of-another-flow"
    ELSE IF e.params # C.syn THEN "parameters"
    ELSE ""
Done(e, last) ==
    IF C.L > 0 THEN e.done = (IF last THEN "true" ELSE "false")
    ELSE e.done = "none" \/ (C.pf = 1 /\ e.done = "false")
Late(e) == C.pf = 1 /\ e.kind = "stop" /\ e.late = 1
NextBatch(e) ==
    LET need == C.L > 0 \/ s.cur = <<>> \/ s.served >= C.K
        f == IF e.kind = "ok" /\ Len(e.cells) >= C.F THEN Flows(e) ELSE <<>>
        j == IF C.L > 0 THEN Epi!JudgeStep(C, s.st, e.kind, f)
             ELSE JudgeGet(C, s.st, C.F, e.kind, Real(f))
    IN  IF ~need
        THEN [why |-> IF e.kind # "ok" THEN "flow-batch-not-served-again"
                      ELSE IF f # s.cur THEN "other-flow-batch"
                      ELSE IF Content(e, f) # "" THEN Content(e, f)
                      ELSE IF Done(e, FALSE) THEN "" ELSE "done-flags",
              s |-> [s EXCEPT !.served = @ + 1]]
        ELSE IF j.why # ""
        THEN [why |-> IF Late(e) THEN "" ELSE j.why, s |-> s]
        ELSE [why |-> IF e.kind # "ok" THEN ""
                      ELSE IF Content(e, f) # "" THEN Content(e, f)
                      ELSE IF C.L > 0 THEN (IF Done(e, j.st.t = C.L) THEN "" ELSE "done-flags")
                      ELSE IF Done(e, FALSE) THEN "" ELSE "done-flags",
              s |-> IF e.kind = "ok" THEN [s EXCEPT !.st = j.st, !.cur = f, !.served = 1] ELSE [s EXCEPT !.st = j.st]]
Must(e, s2, what) == [why |-> IF e.kind = "ok" THEN "" ELSE what, s |-> s2]
Judge(e) ==
    CASE e.op = "construct" -> Must(e, s, "construction-fails")
      [] e.op = "reset" -> Must(e, Start, "reset-fails")
      [] s.down -> [why |-> IF e.kind = "hang" THEN "hangs-after-shutdown" ELSE "", s |-> s]
      [] e.op = "next" -> NextBatch(e)
      [] e.op = "reset_self" -> Must(e, [s EXCEPT !.cur = <<>>, !.served = 0], "reset-fails")
      [] e.op = "next_episode" ->
           IF C.L > 0 THEN Must(e, [s EXCEPT !.st = Epi!EpStart], "next-episode-fails")
           ELSE [why |-> IF C.pf = 0 /\ e.kind = "ok" THEN "next-episode-accepted" ELSE "", s |-> s]
      [] e.op = "shutdown" ->
           [why |-> IF e.kind # "ok" THEN "shutdown-fails"
                    ELSE IF e.threads # 0 THEN "background-work-left" ELSE "",
            s |-> [s EXCEPT !.down = TRUE]]
      [] OTHER -> [why |-> "unknown-event", s |-> s]
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = "" /\ s = Start
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET j == Judge(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr /\ s' = j.s
             /\ verdict' = IF j.why # "" THEN j.why ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, s, verdict>>
=============================================================================
