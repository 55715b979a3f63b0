------------------------------ MODULE Prefetch ------------------------------
(***************************************************************************)
(* PrefetchingFlowFieldScheduler: a background loader and its clients, one *)
(* action per step that another thread can observe.  Queue operations are  *)
(* atomic (the standard library's queue is trusted).  A timeout may fire   *)
(* only while the loader is inside a call of the wrapped scheduler, or     *)
(* gone (time is negligible otherwise).  Every call and return is fed to   *)
(* the monitor PrefetchAbs: `why` must stay empty.                         *)
(*                                                                         *)
(* The Fix* constants are TRUE for the code as it is; FALSE brings back a  *)
(* historical defect which TLC must refute:                                *)
(*   FixEos   : end-of-stream never displaces a batch                      *)
(*   FixStop  : a loader blocked on the full buffer notices the stop       *)
(*   FixStale : batches of a skipped episode that arrive late are dropped  *)
(*   FixStart : starting the loader is atomic                              *)
(***************************************************************************)
EXTENDS PrefetchAbs, TLC, Json

CONSTANTS L, N, Buf, Clients, MaxOps, Fails, Ops, Emitting,
          FixEos, FixStop, FixStale, FixStart

VARIABLES q, stop, started, walive, wpc, wb, u, calls, stale, t, cpc, s, why, left, h
vars == <<q, stop, started, walive, wpc, wb, u, calls, stale, t, cpc, s, why, left, h>>

C == [L |-> L, buf |-> Buf, clients |-> Clients, strict |-> 1, startup |-> 1, steady |-> 1]
EOSM == <<0, 0, 0>>
E(op, ph, th, kind, id, el) ==
    [op |-> op, ph |-> ph, th |-> th, kind |-> kind, id |-> id, el |-> el, since |-> el,
     v |-> 0, alive |-> 0]
Call(op, th) == E(op, "call", th, "ok", EOSM, 0)
Ret(op, th, kind) == E(op, "ret", th, kind, EOSM, 0)

RECURSIVE Fold(_, _)
Fold(r, es) == IF es = <<>> \/ r.why # "" THEN r
               ELSE Fold(On(C, r.s, [Head(es) EXCEPT !.alive = IF walive THEN 1 ELSE 0]), Tail(es))
Feed(es) == LET r == Fold(Res(why, s), es) IN s' = r.s /\ why' = r.why

Init == /\ q = <<>> /\ stop = FALSE /\ started = FALSE /\ walive = FALSE /\ wpc = "off"
        /\ wb = EOSM /\ u = [gen |-> 0, ep |-> 1, step |-> 0] /\ calls = 0
        /\ stale = 0 /\ t = 0 /\ cpc = [k \in 1..Clients |-> "idle"]
        /\ s = PInit(C) /\ why = "" /\ left = MaxOps /\ h = <<>>

\* ------------------------------------------------------------------ loader
WTop == /\ wpc = "top" /\ walive
        /\ IF stop THEN /\ wpc' = "dead" /\ walive' = FALSE /\ Feed(<<>>)
           ELSE /\ wpc' = "in" /\ UNCHANGED walive /\ Feed(<<Call("u_get", 0)>>)
        /\ UNCHANGED <<q, stop, started, wb, u, calls, stale, t, cpc, left, h>>
WRet == /\ wpc = "in"
        /\ calls' = IF Fails = {} THEN calls ELSE calls + 1
        /\ IF calls' \in Fails
           THEN /\ wpc' = "dead" /\ walive' = FALSE /\ Feed(<<Ret("u_get", 0, "error")>>)
                /\ UNCHANGED <<wb, u>>
           ELSE IF L > 0 /\ u.step >= L
           THEN /\ wpc' = "next" /\ Feed(<<Ret("u_get", 0, "episode_end")>>) /\ UNCHANGED <<wb, u, walive>>
           ELSE IF L = 0 /\ u.step >= N
           THEN /\ wpc' = "eos" /\ Feed(<<Ret("u_get", 0, "stop")>>) /\ UNCHANGED <<wb, u, walive>>
           ELSE LET id == <<u.gen, IF L > 0 THEN u.ep ELSE 0, u.step + 1>>
                IN  /\ u' = [u EXCEPT !.step = @ + 1] /\ wb' = id /\ wpc' = "put"
                    /\ Feed(<<E("u_get", "ret", 0, "ok", id, 0)>>) /\ UNCHANGED walive
        /\ UNCHANGED <<q, stop, started, stale, t, cpc, left, h>>
WNext == /\ wpc = "next" /\ wpc' = "top"
         /\ u' = [u EXCEPT !.ep = @ + 1, !.step = 0]
         /\ Feed(<<Call("u_next", 0), Ret("u_next", 0, "ok")>>)
         /\ UNCHANGED <<q, stop, started, walive, wb, calls, stale, t, cpc, left, h>>
WPut == /\ wpc = "put" /\ Len(q) < Buf /\ q' = Append(q, wb) /\ wpc' = "top"
        /\ UNCHANGED <<stop, started, walive, wb, u, calls, stale, t, cpc, s, why, left, h>>
WPutStop == /\ wpc = "put" /\ FixStop /\ stop /\ wpc' = "top"
            /\ UNCHANGED <<q, stop, started, walive, wb, u, calls, stale, t, cpc, s, why, left, h>>
WEos == /\ wpc = "eos"
        /\ q' = IF Len(q) < Buf \/ FixEos THEN Append(q, EOSM) ELSE Append(Tail(q), EOSM)
        /\ stop' = TRUE /\ wpc' = "dead" /\ walive' = FALSE
        /\ UNCHANGED <<started, wb, u, calls, stale, t, cpc, s, why, left, h>>
Worker == WTop \/ WRet \/ WNext \/ WPut \/ WPutStop \/ WEos

\* The loader cannot make progress without time passing.
Slow == wpc \in {"in", "dead", "off"}

\* ----------------------------------------------------------------- clients
Idle(k, op) == /\ cpc[k] = "idle" /\ left > 0 /\ op \in Ops /\ why = ""
               /\ left' = left - 1
               /\ h' = IF Emitting THEN Append(h, <<k, op>>) ELSE h
Goto(k, pc) == cpc' = [cpc EXCEPT ![k] = pc]
StartNow == /\ started' = TRUE
            /\ IF started THEN UNCHANGED <<walive, wpc>> ELSE walive' = TRUE /\ wpc' = "top"
Unstarted == UNCHANGED <<started, walive, wpc>>

Get(k) == /\ Idle(k, "get") /\ Feed(<<Call("get", k)>>)
          /\ IF FixStart
             THEN /\ StartNow
                  /\ Goto(k, IF L > 0 /\ t >= L THEN "epend" ELSE "getq")
             ELSE /\ Goto(k, IF started THEN "getq" ELSE "starting") /\ Unstarted
          /\ UNCHANGED <<q, stop, wb, u, calls, stale, t>>
\* without the lock two clients may both find the loader not started
GetStarting(k) ==
    /\ cpc[k] = "starting"
    /\ IF walive \/ wpc = "dead"
       THEN /\ Feed(<<Ret("get", k, "error")>>) /\ Goto(k, "idle") /\ Unstarted
       ELSE /\ started' = TRUE /\ walive' = TRUE /\ wpc' = "top" /\ Goto(k, "getq") /\ Feed(<<>>)
    /\ UNCHANGED <<q, stop, wb, u, calls, stale, t, left, h>>
GetEnd(k) == /\ cpc[k] = "epend" /\ Goto(k, "idle") /\ Feed(<<Ret("get", k, "episode_end")>>)
             /\ UNCHANGED <<q, stop, started, walive, wpc, wb, u, calls, stale, t, left, h>>
GetItem(k) ==
    /\ cpc[k] = "getq" /\ q # <<>> /\ q' = Tail(q)
    /\ IF Head(q) # EOSM /\ stale > 0
       THEN /\ stale' = stale - 1 /\ Feed(<<>>) /\ UNCHANGED <<t, cpc>>
       ELSE /\ t' = (IF L > 0 THEN t + 1 ELSE t) /\ UNCHANGED stale /\ Goto(k, "idle")
            /\ Feed(<<IF Head(q) = EOSM THEN Ret("get", k, "stop")
                      ELSE E("get", "ret", k, "ok", Head(q), 0)>>)
    /\ UNCHANGED <<stop, started, walive, wpc, wb, u, calls, left, h>>
GetTimeout(k) ==
    /\ cpc[k] = "getq" /\ q = <<>> /\ Slow /\ Goto(k, "idle")
    /\ Feed(<<[Ret("get", k, "stop") EXCEPT !.el = 1]>>)
    /\ UNCHANGED <<q, stop, started, walive, wpc, wb, u, calls, stale, t, left, h>>

NextEp(k) ==
    /\ k = 1 /\ Idle(k, "next") /\ L > 0
    /\ IF started /\ t < L
       THEN /\ stale' = stale + L - t /\ Goto(k, "flush") /\ Feed(<<Call("next", k)>>)
            /\ Unstarted /\ UNCHANGED t
       ELSE /\ StartNow /\ t' = 0 /\ UNCHANGED <<stale, cpc>>
            /\ Feed(<<Call("next", k), Ret("next", k, "ok")>>)
    /\ UNCHANGED <<q, stop, wb, u, calls>>
FlushDone(k) == /\ Goto(k, "idle") /\ t' = 0 /\ Feed(<<Ret("next", k, "ok")>>)
Flush(k) ==
    /\ cpc[k] = "flush" /\ q # <<>> /\ stale > 0 /\ q' = Tail(q)
    /\ IF Head(q) = EOSM THEN FlushDone(k) /\ UNCHANGED stale
       ELSE /\ stale' = stale - 1 /\ IF stale = 1 THEN FlushDone(k) ELSE Feed(<<>>) /\ UNCHANGED <<t, cpc>>
    /\ UNCHANGED <<stop, started, walive, wpc, wb, u, calls, left, h>>
FlushTimeout(k) ==
    /\ cpc[k] = "flush" /\ q = <<>> /\ Slow /\ FlushDone(k)
    /\ stale' = IF FixStale THEN stale ELSE 0
    /\ UNCHANGED <<q, stop, started, walive, wpc, wb, u, calls, left, h>>

Reset1(k) == /\ k = 1 /\ Idle(k, "reset") /\ stop' = TRUE /\ Goto(k, "r1")
             /\ Feed(<<Call("reset", k)>>)
             /\ UNCHANGED <<q, started, walive, wpc, wb, u, calls, stale, t>>
Reset2(k) == /\ cpc[k] = "r1" /\ Goto(k, "r2") /\ q' = IF q = <<>> THEN q ELSE Tail(q)
             /\ UNCHANGED <<stop, started, walive, wpc, wb, u, calls, stale, t, s, why, left, h>>
Reset3(k) == /\ cpc[k] = "r2" /\ ~walive /\ Goto(k, "idle")
             /\ q' = <<>> /\ stop' = FALSE /\ started' = FALSE /\ wpc' = "off" /\ walive' = FALSE
             /\ u' = [gen |-> u.gen + 1, ep |-> 1, step |-> 0] /\ t' = 0 /\ stale' = 0
             /\ Feed(<<Call("u_reset", 0), Ret("u_reset", 0, "ok"), Ret("reset", k, "ok")>>)
             /\ UNCHANGED <<wb, calls, left, h>>

Shut1(k) == /\ k = 1 /\ Idle(k, "shutdown") /\ stop' = TRUE /\ Goto(k, "s1")
            /\ Feed(<<Call("shutdown", k)>>)
            /\ UNCHANGED <<q, started, walive, wpc, wb, u, calls, stale, t>>
Shut2(k) == /\ cpc[k] = "s1" /\ Goto(k, "s2") /\ q' = IF q = <<>> THEN q ELSE Tail(q)
            /\ UNCHANGED <<stop, started, walive, wpc, wb, u, calls, stale, t, s, why, left, h>>
Shut3(k) == /\ cpc[k] = "s2" /\ Goto(k, "s3")
            /\ q' = IF Len(q) < Buf THEN Append(q, EOSM) ELSE q
            /\ UNCHANGED <<stop, started, walive, wpc, wb, u, calls, stale, t, s, why, left, h>>
\* join: returns when the loader is gone, or times out if the loader is inside
\* the wrapped scheduler or (a defect) stuck on the full queue
Stuck == wpc = "put" /\ Len(q) >= Buf /\ ~FixStop
Shut4(k) == /\ cpc[k] = "s3" /\ (~walive \/ wpc = "in" \/ Stuck) /\ Goto(k, "idle")
            /\ Feed(<<Ret("shutdown", k, "ok")>>)
            /\ UNCHANGED <<q, stop, started, walive, wpc, wb, u, calls, stale, t, left, h>>

Inner(k) == \/ GetStarting(k) \/ GetEnd(k) \/ GetItem(k) \/ GetTimeout(k) \/ Flush(k) \/ FlushTimeout(k)
            \/ Reset2(k) \/ Reset3(k) \/ Shut2(k) \/ Shut3(k) \/ Shut4(k)
Begin(k) == Get(k) \/ NextEp(k) \/ Reset1(k) \/ Shut1(k)
Next == Worker \/ \E k \in 1..Clients : Begin(k) \/ Inner(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ \A k \in 1..Clients : WF_vars(Inner(k))

----------------------------------------------------------------------------
Allowed      == why = ""
Bounded      == Len(q) <= Buf + 1
Counter      == (L > 0 /\ why = "" /\ ~s.shut /\ cpc[1] = "idle") => t = s.t
EveryCallReturns == \A k \in 1..Clients : (cpc[k] # "idle") ~> (cpc[k] = "idle")
LoaderEnds   == (s.down) ~> (~walive \/ ~s.down)
Emit == (Emitting /\ left = 0 /\ \A k \in 1..Clients : cpc[k] = "idle")
           => PrintT(<<"SCN", ToJson([ops |-> h])>>)
=============================================================================
