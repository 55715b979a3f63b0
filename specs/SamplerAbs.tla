----------------------------- MODULE SamplerAbs -----------------------------
(***************************************************************************)
(* What a user of a synthetic sampler observes, as a monitor over its       *)
(* calls.  A trace may involve several samplers ("lanes").                  *)
(*                                                                         *)
(* Lane configuration c: seed, F (flows per flow batch), B (batch size      *)
(* asked for), D (devices), K (image batches per flow batch), N (flow       *)
(* batches per pass of the scheduler, flat schedulers), V (valid flows in   *)
(* the last one), L (episode length, 0: not episodic), pf (1: prefetched),  *)
(* dig (1: digests are recorded), refused (1: the construction must fail),  *)
(* free (1: episodes over files; flow number = 16 * sequence + frame + 1),  *)
(* lag (1: the loader may be late, "stop" then means: ask again),           *)
(* per (flows per file: flow k comes from file (k - 1) \div per + 1).        *)
(*                                                                         *)
(* Flow number k (k = 1, 2, ... through a pass or through all episodes)     *)
(* carries tag ((k-1) % 48) + 1, a padded all-zero flow carries tag 0.      *)
(*                                                                         *)
(* A next event e: kind, n (samples), flow (tag of the returned field per   *)
(* sample), move (tag of the motion found in its images), mask, files       *)
(* (flow numbers, 0: empty label), done, gets (scheduler requests made      *)
(* meanwhile), dev (0: work on other devices than asked for), d1, d2 (digest ids of the two images per sample).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Tags == 48
Tag(k) == IF k = 0 THEN 0 ELSE ((k - 1) % Tags) + 1
LStart == [pos |-> 0, cur |-> 0, served |-> 0, draws |-> 0, lastep |-> 0, req |-> 0,
           step |-> 0, down |-> FALSE, prev |-> <<>>]
SInit(cs) == [lane |-> [k \in 1..Len(cs) |-> LStart], seen |-> {}]

Size(c) == ((c.B + c.D - 1) \div c.D) * c.D
Valid(c, b) == IF c.L = 0 /\ b = c.N THEN c.V ELSE c.F
\* flow number of entry j of the flow batch whose first flow is base + 1
Num(base, valid, j) == IF j <= valid THEN base + j ELSE 0

File(c, k) == IF k = 0 THEN 0 ELSE ((k - 1) \div c.per) + 1
Content(c, e, base, valid) ==
    LET T(j) == Tag(Num(base, valid, j)) IN
    IF e.n # Size(c) THEN "batch-size"
    ELSE IF Len(e.flow) # e.n \/ Len(e.move) # e.n THEN "shapes"
    ELSE IF e.mask # [j \in 1..c.F |-> IF j <= valid THEN 1 ELSE 0] THEN "mask"
    ELSE IF e.files # [j \in 1..c.F |-> File(c, Num(base, valid, j))] THEN "file-labels"
    ELSE IF c.D = 1 /\ \E i \in 1..e.n : e.flow[i] # T(((i - 1) % c.F) + 1) THEN "flow-pairing"
    ELSE IF \E i \in 1..e.n : ~\E j \in 1..c.F : e.flow[i] = T(j) THEN "foreign-flow"
    ELSE IF \E i \in 1..e.n : e.move[i] # e.flow[i] THEN "motion-of-another-flow"
    ELSE IF e.n >= c.F /\ \E j \in 1..c.F : ~\E i \in 1..e.n : e.flow[i] = T(j) THEN "flow-unused"
    ELSE ""

\* ------------------------------------------------------------- randomness
Draws(c, l, e, seen) ==
    IF c.dig = 0 THEN [why |-> "", seen |-> seen]
    ELSE LET new == {[seed |-> c.seed, draw |-> l.draws, i |-> i, d1 |-> e.d1[i],
                      tag |-> e.flow[i], d2 |-> e.d2[i]] : i \in 1..e.n}
             same(a, b) == a.seed = b.seed /\ a.draw = b.draw /\ a.i = b.i
             why == IF \E a \in new, b \in seen : same(a, b) /\ a.d1 # b.d1
                    THEN "not-reproducible"
                    ELSE IF \E a \in new, b \in seen : same(a, b) /\ a.tag = b.tag /\ a.d2 # b.d2
                    THEN "not-reproducible"
                    ELSE IF \E a \in new, b \in new \cup seen : ~same(a, b) /\ a.d1 = b.d1
                    THEN "particles-shared" ELSE ""
         IN  [why |-> why, seen |-> seen \cup new]

Done(c, l, e, last) ==
    IF c.L > 0 THEN e.done = (IF last THEN "true" ELSE "false")
    ELSE e.done = "none" \/ (c.pf = 1 /\ e.done = "false")

\* -------------------------------------------------------------- the calls
NextFlat(c, l, e) ==
    LET need == l.cur = 0 \/ l.served >= c.K
        b == IF need THEN l.pos + 1 ELSE l.cur IN
    IF need /\ l.pos >= c.N
    THEN [why |-> IF e.kind = "stop" THEN ""
                  ELSE IF e.kind = "ok" THEN "data-after-the-end" ELSE "end-not-signalled",
          l |-> l]
    ELSE IF e.kind # "ok"
    THEN [why |-> IF e.kind = "stop" THEN "ended-early" ELSE "request-failed", l |-> l]
    ELSE LET w == Content(c, e, (b - 1) * c.F, Valid(c, b)) IN
         [why |-> IF w # "" THEN w
                  ELSE IF ~Done(c, l, e, FALSE) THEN "done-flags"
                  ELSE IF c.pf = 0 /\ e.gets # (IF need THEN 1 ELSE 0) THEN "scheduler-requests"
                  ELSE "",
          l |-> [l EXCEPT !.cur = b, !.pos = IF need THEN b ELSE @,
                          !.served = IF need THEN 1 ELSE @ + 1, !.draws = @ + 1]]

\* Episode ep consists of flow batches (ep-1)*L+1 .. ep*L.
NextEpi(c, l, e) ==
    IF l.step >= c.L
    THEN [why |-> IF e.kind = "episode_end" THEN "" ELSE "episode-end-not-signalled", l |-> l]
    ELSE IF c.lag = 1 /\ e.kind = "stop" THEN [why |-> "", l |-> l]
    ELSE IF e.kind # "ok"
    THEN [why |-> IF e.kind = "episode_end" THEN "episode-cut-short" ELSE "request-failed", l |-> l]
    ELSE LET lo == IF l.step > 0 THEN l.lastep
                   ELSE IF c.pf = 0 THEN (IF l.lastep = 0 THEN 1 ELSE l.lastep) + l.req
                   ELSE l.lastep + (IF l.lastep = 0 THEN 1 ELSE IF l.req = 0 THEN 0 ELSE 1)
             hi == IF l.step > 0 THEN l.lastep
                   ELSE (IF l.lastep = 0 THEN 1 ELSE l.lastep) + l.req
             fits(ep) == Content(c, e, (((ep - 1) * c.L) + l.step) * c.F, c.F) = ""
         IN  IF ~\E ep \in lo..hi : fits(ep)
             THEN [why |-> LET w == Content(c, e, (((lo - 1) * c.L) + l.step) * c.F, c.F)
                           IN  IF w = "file-labels" THEN "wrong-episode-or-step" ELSE w,
                   l |-> l]
             ELSE LET ep == CHOOSE x \in lo..hi : fits(x) IN
                  [why |-> IF ~Done(c, l, e, l.step + 1 = c.L) THEN "done-flags"
                           ELSE IF c.pf = 0 /\ e.gets # 1 THEN "scheduler-requests" ELSE "",
                   l |-> [l EXCEPT !.lastep = ep, !.step = @ + 1, !.req = 0, !.draws = @ + 1]]

\* Episodes over real files: which one is drawn is not prescribed.
NextFree(c, l, e) ==
    LET nums == e.files
        T(j) == Tag(nums[j]) IN
    IF l.step >= c.L
    THEN [why |-> IF e.kind = "episode_end" THEN "" ELSE "episode-end-not-signalled", l |-> l]
    ELSE IF e.kind # "ok"
    THEN [why |-> IF e.kind = "episode_end" THEN "episode-cut-short" ELSE "request-failed", l |-> l]
    ELSE [why |->
            IF e.n # Size(c) \/ Len(e.flow) # e.n \/ Len(e.move) # e.n THEN "batch-size"
            ELSE IF e.mask # [j \in 1..c.F |-> 1] THEN "mask"
            ELSE IF Len(nums) # c.F \/ \E j \in 1..c.F : nums[j] = 0 THEN "file-labels"
            ELSE IF l.step > 0 /\ nums # [j \in 1..c.F |-> l.prev[j] + 1] THEN "wrong-episode-or-step"
            ELSE IF \E i \in 1..e.n : e.flow[i] # T(((i - 1) % c.F) + 1) THEN "flow-pairing"
            ELSE IF \E i \in 1..e.n : e.move[i] # e.flow[i] THEN "motion-of-another-flow"
            ELSE IF ~Done(c, l, e, l.step + 1 = c.L) THEN "done-flags" ELSE "",
          l |-> [l EXCEPT !.step = @ + 1, !.draws = @ + 1, !.prev = nums]]

Next1(c, s, e) ==
    LET l == s.lane[e.lane]
        j == IF c.free = 1 THEN NextFree(c, l, e) ELSE IF c.L > 0 THEN NextEpi(c, l, e) ELSE NextFlat(c, l, e)
        d == IF j.why = "" /\ e.kind = "ok" THEN Draws(c, l, e, s.seen)
             ELSE [why |-> "", seen |-> s.seen]
    IN  [why |-> IF j.why # "" THEN j.why
                 ELSE IF e.kind = "ok" /\ e.dev # 1 THEN "other-devices" ELSE d.why,
         s |-> [s EXCEPT !.lane[e.lane] = j.l, !.seen = d.seen]]

On(cs, s, e) ==
    LET c == cs[e.lane]
        l == s.lane[e.lane] IN
    CASE e.op = "construct" ->
           [why |-> IF c.refused = 1 THEN (IF e.kind = "ok" THEN "not-refused" ELSE "")
                    ELSE IF e.kind = "ok" THEN "" ELSE "construction-fails", s |-> s]
      [] e.op = "next" -> Next1(c, s, e)
      [] e.op = "reset" ->
           [why |-> IF e.kind = "ok" THEN "" ELSE "reset-fails", s |-> [s EXCEPT !.lane[e.lane] = LStart]]
      [] e.op = "reset_self" ->   \* without the scheduler
           [why |-> IF e.kind = "ok" THEN "" ELSE "reset-fails",
            s |-> [s EXCEPT !.lane[e.lane] = [l EXCEPT !.cur = 0, !.served = 0, !.draws = 0]]]
      [] e.op = "next_episode" ->
           IF c.L = 0 /\ c.pf = 0
           THEN [why |-> IF e.kind = "ok" THEN "next-episode-accepted" ELSE "", s |-> s]
           ELSE [why |-> IF e.kind = "ok" THEN "" ELSE "next-episode-fails",
                 s |-> IF c.L = 0 THEN s
                       ELSE [s EXCEPT !.lane[e.lane] = [l EXCEPT !.step = 0, !.req = @ + 1]]]
      [] e.op = "shutdown" ->
           [why |-> IF e.kind # "ok" THEN "shutdown-fails"
                    ELSE IF e.gets < 1 THEN "scheduler-not-shut-down" ELSE "",
            s |-> [s EXCEPT !.lane[e.lane].down = TRUE]]
      [] OTHER -> [why |-> "unknown-event", s |-> s]
=============================================================================
