---------------------------- MODULE SpeedToolTrace ----------------------------
(***************************************************************************)
(* Monitor for P28.  Events:                                                *)
(*   panel  files: listed files [ok, x, y] with the values they hold (in    *)
(*          eighths), listok (a non-empty list), before / after: the        *)
(*          entries of the configuration file as <<key, type, content>>,    *)
(*          limits: the four speed entries before, a: the answers given,    *)
(*          prompts: how often the user was asked, kind, got                *)
(*   update before, change (entries written), after, kind                   *)
(*   range  files, kind, got                                                *)
(* Speeds are in eighths, or absent / invalid: 99999.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
Ev == Traces[tr].ev
Keys == <<"max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y">>
IsSpeed(k) == \E j \in 1..4 : Keys[j] = k
Set(s) == {s[j] : j \in 1..Len(s)}
MaxOf(v, S) == v \in S /\ \A w \in S : w <= v
MinOf(v, S) == v \in S /\ \A w \in S : v <= w
Xs(e) == UNION {Set(e.files[j].x) : j \in 1..Len(e.files)}
Ys(e) == UNION {Set(e.files[j].y) : j \in 1..Len(e.files)}
\* got: the values in the order of Keys
Extremes(e, got) == /\ Len(got) = 4
                    /\ MaxOf(got[1], Xs(e)) /\ MaxOf(got[2], Ys(e)) /\ MinOf(got[3], Xs(e)) /\ MinOf(got[4], Ys(e))
FilesOk(e) == e.listok /\ \A j \in 1..Len(e.files) : e.files[j].ok
Missing(e) == \E j \in 1..4 : e.limits[j] = 99999
Others(s) == {x \in Set(s) : ~IsSpeed(x[1])}
Speeds(s) == {x \in Set(s) : IsSpeed(x[1])}
PanelWhy(e) ==
    IF ~FilesOk(e)
    THEN IF e.kind = "ok" THEN "accepted-bad-files" ELSE IF e.prompts # 0 THEN "asked-before-checking-files"
         ELSE IF e.after # e.before THEN "wrote-though-refused" ELSE ""
    ELSE IF ~Missing(e)
    THEN IF e.kind # "ok" THEN "complete-configuration-refused" ELSE IF e.prompts # 0 THEN "asked-needlessly"
         ELSE IF e.got # e.limits THEN "wrong-speeds" ELSE IF e.after # e.before THEN "wrote-needlessly" ELSE ""
    ELSE IF e.prompts = 0 THEN "did-not-ask"
    ELSE IF e.a[1] # "1"
    THEN IF e.kind = "ok" THEN "went-on-after-no" ELSE IF e.after # e.before THEN "wrote-after-no" ELSE ""
    ELSE IF Others(e.after) # Others(e.before) THEN "other-entries-damaged"
    ELSE IF ~Extremes(e, e.stored) THEN "stored-speeds"
    ELSE IF e.a[2] = "y"
    THEN IF e.kind # "ok" THEN "stopped-after-yes" ELSE IF e.got # e.stored THEN "returned-speeds" ELSE ""
    ELSE IF e.kind = "ok" THEN "went-on-after-no" ELSE ""
UpdateWhy(e) ==
    LET changed == {e.change[j][1] : j \in 1..Len(e.change)}
        want == {x \in Set(e.before) : x[1] \notin changed} \cup Set(e.change)
    IN  IF e.kind # "ok" THEN "update-failed" ELSE IF Set(e.after) # want THEN "other-entries-damaged" ELSE ""
RangeWhy(e) == IF e.kind # "ok" THEN "no-speeds" ELSE IF ~Extremes(e, e.got) THEN "not-the-extremes" ELSE ""
Why(e) == IF e.op = "panel" THEN PanelWhy(e) ELSE IF e.op = "update" THEN UpdateWhy(e) ELSE RangeWhy(e)
Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Why(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
===============================================================================
