------------------------------ MODULE Validation ------------------------------
(***************************************************************************)
(* Value objects with checked fields.  A field holds "a", "b" (both good)   *)
(* or "bad".  New makes an object of the given values, Update one like an   *)
(* earlier object but for the named fields; both refuse bad values and      *)
(* leave every existing object as it is.                                    *)
(*                                                                         *)
(* Mode: "right"; "unchecked" - updates skip the checks; "in-place" -       *)
(* updates write to the object they start from; "first" - checks stop at    *)
(* the first field; "forgets" - updates fall back to "a" for field 3.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxOps, Mode
VARIABLES objs, asked, hist
vars == <<objs, asked, hist>>
Fields == 1..N
Val == {"a", "b", "bad"}
Good(v) == \A f \in Fields : v[f] # "bad"
Init == objs = <<>> /\ asked = <<>> /\ hist = <<>>
New(v) == /\ Len(hist) < MaxOps
          /\ hist' = Append(hist, [op |-> "new", from |-> 0, set |-> Fields, v |-> v])
          /\ IF (IF Mode = "first" THEN v[1] # "bad" ELSE Good(v))
             THEN objs' = Append(objs, v) /\ asked' = Append(asked, v) ELSE UNCHANGED <<objs, asked>>
Update(o, set, v) ==
    LET w == [f \in Fields |-> IF f \in set THEN v[f] ELSE IF Mode = "forgets" /\ f = N THEN "a" ELSE objs[o][f]]
        want == [f \in Fields |-> IF f \in set THEN v[f] ELSE asked[o][f]]
    IN  /\ Len(hist) < MaxOps
        /\ hist' = Append(hist, [op |-> "update", from |-> o, set |-> set, v |-> v])
        /\ IF Good(w) \/ Mode = "unchecked"
           THEN /\ objs' = Append(IF Mode = "in-place" THEN [objs EXCEPT ![o] = w] ELSE objs, w)
                /\ asked' = Append(asked, want)
           ELSE UNCHANGED <<objs, asked>>
\* values of fields an update does not name do not matter
Relevant(set, v) == \A f \in Fields \ set : v[f] = "a"
Change == \E o \in 1..Len(objs), set \in SUBSET Fields, v \in [Fields -> Val] : Relevant(set, v) /\ Update(o, set, v)
Next == (\E v \in [Fields -> Val] : New(v)) \/ Change
Spec == Init /\ [][Next]_vars
AllValid == \A o \in 1..Len(objs) : Good(objs[o])
AsAsked == objs = asked
Untouched == [][\A o \in 1..Len(objs) : objs'[o] = objs[o]]_vars
Emit == Len(hist) = MaxOps => PrintT(<<"SCN", ToJson(hist)>>)
===============================================================================
