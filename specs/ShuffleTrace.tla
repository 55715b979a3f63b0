---------------------------- MODULE ShuffleTrace ----------------------------
(* Monitor for P04.  A trace groups several runs ("lanes") of shuffled      *)
(* schedulers; an event is one pass of one lane: the files in the order     *)
(* delivered (a prefix if the pass was cut short by a reset), `whole` when  *)
(* the pass ran to its end.  Lanes with the same `group` have the same key. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, known, verdict

C == Traces[tr].cfg       \* files: number of distinct files
Ev == Traces[tr].ev
N == C.files

Distinct(s) == Cardinality({s[j] : j \in 1..Len(s)}) = Len(s)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Longer(a, b) == IF Len(a) >= Len(b) THEN a ELSE b

Get(g, p) == known[<<g, p>>]
Has(g, p) == <<g, p>> \in DOMAIN known
FullOf(S) == {known[x] : x \in {y \in S : Len(known[y]) = N}}

Varies == /\ \A g \in {x[1] : x \in DOMAIN known} :
                LET P == {x \in DOMAIN known : x[1] = g /\ Len(known[x]) = N}
                IN  Cardinality(P) >= 3 => Cardinality(FullOf(P)) >= 2
          /\ LET F == {x \in DOMAIN known : x[2] = 1 /\ Len(known[x]) = N}
             IN  Cardinality(F) >= 3 => Cardinality(FullOf(F)) >= 2

Judge(e) ==
    CASE e.op = "pass" ->
          IF e.kind # "ok" THEN "pass-failed"
          ELSE IF \E j \in 1..Len(e.order) : e.order[j] \notin 1..N THEN "unknown-or-split-file"
          ELSE IF ~Distinct(e.order) THEN "file-repeated"
          ELSE IF e.whole = 1 /\ Len(e.order) # N THEN "file-lost"
          ELSE IF Has(e.group, e.pass)
                  /\ ~Prefix(e.order, Get(e.group, e.pass))
                  /\ ~Prefix(Get(e.group, e.pass), e.order) THEN "not-reproducible"
          ELSE ""
      [] e.op = "end" -> IF Varies THEN "" ELSE "order-never-varies"
      [] OTHER -> "unknown-event"

Learn(e) == IF e.op # "pass" \/ e.kind # "ok" THEN known
            ELSE LET x == <<e.group, e.pass>>
                     o == IF x \in DOMAIN known THEN Longer(known[x], e.order) ELSE e.order
                 IN  (x :> o) @@ known

Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = "" /\ known = <<>>
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Judge(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr /\ known' = Learn(Ev[i + 1])
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, known, verdict>>
=============================================================================
