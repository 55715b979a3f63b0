---------------------------- MODULE PrefetchAbs ----------------------------
(***************************************************************************)
(* What the users of a prefetching scheduler, and the scheduler it wraps,  *)
(* observe, as a monitor over call and return events.                      *)
(*                                                                         *)
(* Configuration c: L (episode length, 0: not episodic), buf (buffer       *)
(* size), clients, startup / steady (timeouts, ms), strict (1: the clock   *)
(* only moves when every thread is blocked, so "nothing was available" can *)
(* be judged exactly).                                                     *)
(*                                                                         *)
(* Event e: op, ph ("call"/"ret"), th (client), kind, id (the batch:       *)
(* <<generation, episode, step>>; for flat streams <<generation, 0, k>>),  *)
(* el (ms since the call), since (ms since shutdown was called; for       *)
(* "running" the live background threads at the call: one may end in between), *)
(* v (a returned number), alive (live background threads).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

PInit(c) ==
    [gen |-> 0,          \* resets of the wrapped scheduler so far
     prod |-> <<>>,      \* batches it produced in this generation
     deliv |-> {},       \* positions in prod that were delivered
     last |-> 0,         \* largest of them
     lastep |-> 0,       \* episode of the last delivered batch
     t |-> 0,            \* steps delivered in the current episode
     req |-> 0,          \* next-episode requests since the last delivery
     skipped |-> 0,      \* batches the user gave up by such requests
     first |-> FALSE,    \* some batch was delivered in this generation
     eos |-> FALSE, failed |-> FALSE,
     shut |-> FALSE, down |-> FALSE,   \* shutdown called / returned
     resetting |-> FALSE, fresh |-> FALSE,
     busy |-> FALSE,     \* a call of the wrapped scheduler is active
     inget |-> {},       \* clients inside get_batch
     maxret |-> [k \in 1..c.clients |-> 0],
     early |-> {}]       \* clients whose request began before the first delivery

Epi(c) == c.L > 0
Find(s, id) == IF \E k \in 1..Len(s.prod) : s.prod[k] = id
               THEN CHOOSE k \in 1..Len(s.prod) : s.prod[k] = id ELSE 0
Undelivered(s) == {k \in 1..Len(s.prod) : k \notin s.deliv}
Others(s, th) == Cardinality(s.inget \ {th})

\* Is something loaded that the next request must be able to deliver?
Waiting(c, s, th) ==
    IF ~Epi(c) THEN Cardinality(Undelivered(s)) > Others(s, th)
    ELSE \E k \in (s.last + 1)..Len(s.prod) :
            IF s.t > 0 THEN s.prod[k] = <<s.gen, s.lastep, s.t + 1>>
            ELSE s.prod[k] = <<s.gen, IF s.lastep = 0 THEN 1 + s.req ELSE s.lastep + s.req, 1>>

Res(w, s) == [why |-> w, s |-> s]

GetCall(c, s, e) ==
    Res("", [s EXCEPT !.inget = @ \cup {e.th}, !.maxret[e.th] = s.last,
                      !.early = IF s.first THEN @ \ {e.th} ELSE @ \cup {e.th}])
Min2(a, b) == IF a < b THEN a ELSE b

Delivered(s, e, k) ==
    [s EXCEPT !.deliv = @ \cup {k}, !.last = IF k > @ THEN k ELSE @, !.lastep = e.id[2],
              !.t = @ + 1, !.req = 0, !.skipped = 0, !.first = TRUE]

GetOk(c, s, e) ==
    LET k == Find(s, e.id) IN
    IF e.id[1] # s.gen THEN "batch-from-before-reset"
    ELSE IF k = 0 THEN "unknown-batch"
    ELSE IF k \in s.deliv THEN "batch-repeated"
    ELSE IF s.shut THEN (IF k > s.last THEN "" ELSE "batch-reordered")
    ELSE IF Epi(c)
    THEN IF s.t >= c.L THEN "beyond-episode-length"
         ELSE IF s.t > 0
         THEN IF e.id[2] # s.lastep THEN "episodes-mixed"
              ELSE IF e.id[3] # s.t + 1 THEN "step-out-of-order" ELSE ""
         ELSE IF e.id[3] # 1 THEN "episode-not-from-start"
         ELSE IF e.id[2] <= s.lastep THEN "old-episode"
         ELSE IF e.id[2] > (IF s.lastep = 0 THEN 1 ELSE s.lastep) + s.req THEN "episode-lost"
         \* before the first batch a request may just start the stream
         ELSE IF e.id[2] < s.lastep + s.req THEN "skipped-episode-delivered"
         ELSE ""
    ELSE IF k <= s.maxret[e.th] THEN "batch-reordered"
    ELSE IF Cardinality({j \in Undelivered(s) : j < k}) > Others(s, e.th) THEN "batch-lost"
    ELSE ""

GetStop(c, s, e) ==
    LET need == IF ~s.first THEN c.startup
                ELSE IF e.th \in s.early THEN Min2(c.steady, c.startup) ELSE c.steady IN
    IF Epi(c) /\ s.t >= c.L /\ ~s.shut THEN "end-of-episode-not-signalled"
    ELSE IF s.shut
    THEN IF c.strict = 1 /\ c.clients = 2 /\ ~Epi(c) /\ e.since < e.el /\ e.since > 3000 THEN "consumer-not-released" ELSE ""
    ELSE IF s.eos /\ Cardinality(Undelivered(s)) <= Others(s, e.th) THEN ""
    ELSE IF e.el < need THEN (IF s.eos THEN "end-before-last-batch" ELSE "gave-up-early")
    ELSE IF c.strict = 1 /\ Waiting(c, s, e.th) THEN "gave-up-though-available"
    ELSE ""

GetRet(c, s, e) ==
    LET w == CASE e.kind = "ok" -> GetOk(c, s, e)
               [] e.kind = "stop" -> GetStop(c, s, e)
               [] e.kind = "episode_end" ->
                    IF Epi(c) /\ (s.t >= c.L \/ s.shut) THEN "" ELSE "episode-cut-short"
               [] e.kind = "error" ->
                    IF s.failed /\ ~Waiting(c, s, e.th) THEN "" ELSE "request-failed"
               [] e.kind = "hang" -> "request-hangs"
               [] OTHER -> "request-failed"
        s1 == IF w = "" /\ e.kind = "ok" THEN Delivered(s, e, Find(s, e.id)) ELSE s
    IN  Res(w, [s1 EXCEPT !.inget = @ \ {e.th}])

NextCall(c, s) ==
    IF ~Epi(c) THEN Res("", s)
    ELSE Res("", [s EXCEPT !.req = @ + 1, !.skipped = @ + (c.L - s.t), !.t = 0])

ResetRet(c, s, e) ==
    IF e.kind = "hang" THEN Res("reset-hangs", s)
    ELSE IF e.kind # "ok" THEN Res("reset-fails", s)
    ELSE IF ~s.fresh THEN Res("wrapped-scheduler-not-reset", s)
    ELSE Res("", [s EXCEPT !.resetting = FALSE, !.shut = FALSE, !.down = FALSE,
                           !.t = 0, !.lastep = 0, !.req = 0, !.skipped = 0, !.first = FALSE])

ShutRet(c, s, e) ==
    IF e.kind = "hang" THEN Res("shutdown-hangs", s)
    ELSE IF e.kind # "ok" THEN Res("shutdown-fails", s)
    ELSE IF c.strict = 1 /\ e.el > 3000 THEN Res("shutdown-not-prompt", s)
    ELSE Res("", [s EXCEPT !.down = TRUE])

UCall(c, s, e) ==
    IF s.busy THEN Res("wrapped-scheduler-called-concurrently", s)
    ELSE IF e.op = "u_get" /\ s.down /\ c.strict = 1 THEN Res("loads-after-shutdown", s)
    ELSE Res("", [s EXCEPT !.busy = TRUE])

ReadAhead(c, s) == s.last + s.skipped + Cardinality(s.inget) + c.buf + 1
                   + (IF s.shut \/ s.resetting THEN 1 ELSE 0)

URet(c, s, e) ==
    LET s1 == [s EXCEPT !.busy = FALSE] IN
    CASE e.op = "u_reset" ->
           Res("", [s1 EXCEPT !.gen = @ + 1, !.prod = <<>>, !.deliv = {}, !.last = 0,
                              !.eos = FALSE, !.failed = FALSE, !.fresh = TRUE,
                              !.maxret = [k \in 1..c.clients |-> 0]])
      [] e.op = "u_get" /\ e.kind = "ok" ->
           IF Len(s.prod) + 1 > ReadAhead(c, s) THEN Res("read-ahead-unbounded", [s1 EXCEPT !.prod = Append(@, e.id)])
           ELSE Res("", [s1 EXCEPT !.prod = Append(@, e.id)])
      [] e.op = "u_get" /\ e.kind = "stop" -> Res("", [s1 EXCEPT !.eos = TRUE])
      [] e.op = "u_get" /\ e.kind = "error" -> Res("", [s1 EXCEPT !.failed = TRUE])
      [] OTHER -> Res("", s1)

On1(c, s, e) ==
    IF e.ph = "call"
    THEN CASE e.op = "get" -> GetCall(c, s, e)
           [] e.op = "next" -> NextCall(c, s)
           [] e.op = "reset" -> Res("", [s EXCEPT !.resetting = TRUE, !.fresh = FALSE])
           [] e.op = "shutdown" -> Res("", [s EXCEPT !.shut = TRUE])
           [] e.op \in {"u_get", "u_next", "u_reset"} -> UCall(c, s, e)
           [] OTHER -> Res("", s)
    ELSE CASE e.op = "get" -> GetRet(c, s, e)
           [] e.op = "next" ->
                Res(IF e.kind = "ok" THEN "" ELSE IF e.kind = "hang" THEN "next-episode-hangs"
                    ELSE "next-episode-fails", s)
           [] e.op = "reset" -> ResetRet(c, s, e)
           [] e.op = "shutdown" -> ShutRet(c, s, e)
           [] e.op = "rem" ->
                Res(IF ~Epi(c) \/ s.shut \/ (e.kind = "ok" /\ e.v = c.L - s.t) THEN ""
                    ELSE "steps-remaining", s)
           [] e.op = "running" ->
                Res(IF e.kind = "ok" /\ ((e.v = 1) = (e.alive > 0) \/ (e.v = 1) = (e.since > 0)) THEN "" ELSE "is-running", s)
           [] e.op \in {"u_get", "u_next", "u_reset"} -> URet(c, s, e)
           [] e.op = "settled" ->      \* shortly after a shutdown returned
                Res(IF s.down /\ e.alive > 0 /\ ~s.busy THEN "loader-survives-shutdown" ELSE "", s)
           [] e.op = "end" ->
                Res(IF s.shut /\ e.alive > 0 THEN "loader-never-ends" ELSE "", s)
           [] OTHER -> Res("unknown-event", s)

On(c, s, e) ==
    LET j == On1(c, s, e) IN
    IF j.why = "" /\ e.alive > 1 THEN Res("two-loaders", j.s) ELSE j
=============================================================================
