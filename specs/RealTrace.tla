------------------------------ MODULE RealTrace ------------------------------
(***************************************************************************)
(* Monitor for P21: recorded calls of real-image samplers.  A flat stack is *)
(* judged by SchedulerAbs, an episodic one by EpisodeAbs; on top of that    *)
(* every batch must carry the images, labels and mask of the very slices it *)
(* delivers, no parameters, float32 data of the stored shape, and the done  *)
(* flags of its step.                                                       *)
(***************************************************************************)
EXTENDS SchedulerAbs, TLC, Json, IOUtils
Epi == INSTANCE EpisodeAbs
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, st, verdict
C == Traces[tr].cfg
Ev == Traces[tr].ev

Zero == <<0, 0>>
Real(e) == SelectSeq(e.items, LAMBDA x : x # Zero)

Layout(e) ==
    LET k == Len(Real(e)) IN
    IF Len(e.items) # C.B THEN "batch-size"
    ELSE IF \E j \in 1..C.B : (e.items[j] = Zero) # (j > k) THEN "padding-not-at-end"
    ELSE IF e.mask # [j \in 1..C.B |-> IF j <= k THEN 1 ELSE 0] THEN "mask"
    ELSE IF e.labels # e.items THEN "labels"
    ELSE IF e.im1 # e.items THEN "image1"
    ELSE IF e.im2 # e.items THEN "image2"
    ELSE IF e.params # 0 THEN "parameters-present"
    ELSE IF e.form # 1 THEN "type-or-shape"
    ELSE ""

Done(e, last) ==
    IF C.L > 0 THEN e.done = (IF last THEN "true" ELSE "false")
    ELSE e.done = "none" \/ (C.pf = 1 /\ e.done = "false")

Flat(e, s) ==
    LET j == JudgeGet(C, s, C.B, e.kind, IF e.kind = "ok" THEN [k \in 1..Len(Real(e)) |-> <<Real(e)[k][1], 0>>] ELSE <<>>)
    IN  IF j.why # "" THEN j
        ELSE IF e.kind # "ok" THEN j
        ELSE [why |-> IF Layout(e) # "" THEN Layout(e) ELSE IF Done(e, FALSE) THEN "" ELSE "done-flags",
              st |-> j.st]

Ep(e, s) ==
    LET j == Epi!JudgeStep(C, s, e.kind, e.items)
    IN  IF j.why # "" \/ e.kind # "ok" THEN j
        ELSE [why |-> IF Layout(e) # "" THEN Layout(e)
                      ELSE IF Done(e, j.st.t = C.L) THEN "" ELSE "done-flags", st |-> j.st]

Start == IF C.L > 0 THEN Epi!EpStart ELSE Fresh(C, C.ok)
Must(e, s, s2, what) == [why |-> IF e.kind = "ok" THEN "" ELSE what, st |-> s2]
Judge(e, s) ==
    CASE e.op = "construct" ->
           [why |-> IF (e.kind = "ok") = (C.img = 1) THEN ""
                    ELSE IF C.img = 1 THEN "construction-fails" ELSE "scheduler-without-images-accepted",
            st |-> s]
      [] e.op = "next" -> IF C.L > 0 THEN Ep(e, s) ELSE Flat(e, s)
      [] e.op = "reset" -> Must(e, s, Start, "reset-fails")
      [] e.op = "reset_self" -> Must(e, s, s, "reset-fails")
      [] e.op = "next_episode" ->
           IF C.L > 0 THEN Must(e, s, Start, "next-episode-fails")
           ELSE [why |-> IF C.pf = 0 /\ e.kind = "ok" THEN "next-episode-accepted" ELSE "", st |-> s]
      [] e.op = "shutdown" ->
           [why |-> IF e.kind # "ok" THEN "shutdown-fails"
                    ELSE IF e.downs < 1 THEN "scheduler-not-shut-down" ELSE "", st |-> s]
      [] OTHER -> [why |-> "unknown-event", st |-> s]

Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = "" /\ st = Start
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET j == Judge(Ev[i + 1], st) IN
             /\ i' = i + 1 /\ tr' = tr /\ st' = j.st
             /\ verdict' = IF j.why # "" THEN j.why ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, st, verdict>>
=============================================================================
