------------------------------ MODULE SpeedTool ------------------------------
(***************************************************************************)
(* The tool that completes the speed limits of a configuration file.        *)
(* Files hold sets of values of one component; the tool reads them one by   *)
(* one.  Speeds entries are "ok", "missing" or "invalid" (min and max).     *)
(*                                                                         *)
(* Mode: "right"; "early" - writes before the user is asked; "zero" - the   *)
(* running extremes start from 0; "last" - keeps the last file's extremes.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Values, MaxFiles, Mode
VARIABLES files, filesOk, entry, answers, pc, k, lo, hi, written
vars == <<files, filesOk, entry, answers, pc, k, lo, hi, written>>
None == 1000
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
FileLists == UNION {[1..n -> (SUBSET Values) \ {{}}] : n \in 1..MaxFiles}
Init == /\ files \in FileLists /\ filesOk \in BOOLEAN /\ entry \in [{"min", "max"} -> {"ok", "missing", "invalid"}]
        /\ answers \in [1..2 -> {"1", "2", "y", "n"}]
        /\ pc = "start" /\ k = 0 /\ lo = None /\ hi = None /\ written = FALSE
Bad == \E e \in {"min", "max"} : entry[e] # "ok"
All == UNION {files[j] : j \in 1..Len(files)}
Go(to) == pc' = to /\ UNCHANGED <<files, filesOk, entry, answers>>
Refuse == pc = "start" /\ ~filesOk /\ Go("refused") /\ UNCHANGED <<k, lo, hi, written>>
Present == pc = "start" /\ filesOk /\ ~Bad /\ Go("kept") /\ UNCHANGED <<k, lo, hi, written>>
Ask == pc = "start" /\ filesOk /\ Bad /\ Go("asked") /\ written' = (Mode = "early") /\ UNCHANGED <<k, lo, hi>>
Decline == pc = "asked" /\ answers[1] # "1" /\ Go("stopped") /\ UNCHANGED <<k, lo, hi, written>>
Accept == /\ pc = "asked" /\ answers[1] = "1" /\ Go("reading")
          /\ k' = 1 /\ UNCHANGED written
          /\ lo' = IF Mode = "zero" THEN 0 ELSE None
          /\ hi' = IF Mode = "zero" THEN 0 ELSE 0 - None
Read == /\ pc = "reading" /\ k <= Len(files) /\ Go("reading") /\ k' = k + 1 /\ UNCHANGED written
        /\ lo' = IF Mode = "last" THEN Min(files[k]) ELSE Min({lo, Min(files[k])})
        /\ hi' = IF Mode = "last" THEN Max(files[k]) ELSE Max({hi, Max(files[k])})
Write == pc = "reading" /\ k > Len(files) /\ Go("again") /\ written' = TRUE /\ UNCHANGED <<k, lo, hi>>
Continue == pc = "again" /\ answers[2] = "y" /\ Go("returned") /\ UNCHANGED <<k, lo, hi, written>>
Stop == pc = "again" /\ answers[2] # "y" /\ Go("stopped") /\ UNCHANGED <<k, lo, hi, written>>
Next == Refuse \/ Present \/ Ask \/ Decline \/ Accept \/ Read \/ Write \/ Continue \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
WrittenOnlyIfAccepted == written => filesOk /\ Bad /\ answers[1] = "1"
TrueExtremes == pc \in {"again", "returned"} => lo = Min(All) /\ hi = Max(All)
Ends == <>(pc \in {"refused", "kept", "stopped", "returned"})
Emit == pc \in {"refused", "kept", "stopped", "returned"} =>
        PrintT(<<"SCN", ToJson([ok |-> filesOk, min |-> entry["min"], max |-> entry["max"],
                                a |-> answers, n |-> Len(files), pc |-> pc])>>)
===============================================================================
