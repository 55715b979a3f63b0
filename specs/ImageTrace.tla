----------------------------- MODULE ImageTrace -----------------------------
(* Monitor: measured samples of real image batches.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
I == INSTANCE Images WITH W <- 1, MaxP <- 1, BreakMask <- FALSE, BreakHide <- FALSE,
       BreakMixed <- FALSE, c <- 0, dens <- 0, amp <- 0, pos <- 0, hid1 <- 0, hid2 <- 0,
       img1 <- 0, img2 <- 0, pc <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
C == Traces[tr].cfg
Ev == Traces[tr].ev
Why(e) == IF e.kind # "ok" THEN "generation-fails" ELSE I!Judge(C, e)
\* over the whole run: hiding is drawn separately per image, every range is used
End == LET all == {Ev[k] : k \in DOMAIN Ev} IN
    IF C.one = 1 /\ Len(Ev) >= 60 /\ C.hide1 = 50 /\ C.hide2 = 50 /\
       Cardinality({<<e.blank1, e.blank2>> : e \in all}) < 4 THEN "hiding-not-independent"
    ELSE IF C.dhi > C.dlo + 100 /\ Len(Ev) >= 8 /\ Cardinality({e.dens : e \in all}) < 4 THEN "density-constant"
    ELSE IF Len(Ev) >= 60 /\ (\E k \in DOMAIN C.diaR : \A e \in all : e.dia # k) THEN "range-unused"
    ELSE IF Len(Ev) >= 60 /\ (\E k \in DOMAIN C.intR : \A e \in all : e.int # k) THEN "range-unused"
    ELSE IF Len(Ev) >= 60 /\ (\E k \in DOMAIN C.rhoR : \A e \in all : e.rho # k) THEN "range-unused"
    ELSE "ok"
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN End ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
