------------------------------ MODULE DrawTrace ------------------------------
(* Monitor for P07: the episode starts drawn by several runs ("lanes").      *)
(* Lanes with the same group share key and file list but are different       *)
(* processes; every start drawn must be admissible, equal lanes must draw    *)
(* equally, and at the end every admissible start must have been seen.       *)
EXTENDS EpisodeAbs, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, known, seen, verdict
C == Traces[tr].cfg
Ev == Traces[tr].ev

Judge(e) ==
    CASE e.op = "construct" -> IF (e.kind = "ok") = ~Rejected(C) THEN "" ELSE "construction"
      [] e.op = "draw" ->
           IF e.kind # "ok" THEN "draw-failed"
           ELSE IF Len(e.cells) # C.B THEN "batch-size"
           ELSE IF \E k \in 1..C.B : ~Admissible(C, e.cells[k]) THEN "inadmissible-start"
           ELSE IF <<e.group, e.no>> \in DOMAIN known /\ known[<<e.group, e.no>>] # e.cells
           THEN "not-reproducible" ELSE ""
      [] e.op = "end" ->
           IF e.all = 0 THEN ""
           ELSE IF seen # Starts(C) THEN "start-never-drawn"
           ELSE IF Cardinality({x[1] : x \in DOMAIN known}) >= 2 /\ Cardinality(Starts(C)) >= 3 /\
                   \A x, y \in DOMAIN known : x[2] = y[2] => known[x] = known[y]
           THEN "key-ignored"
           ELSE IF Cardinality(Starts(C)) >= 3 /\ DOMAIN known # {} /\
                   \A x, y \in DOMAIN known : x[1] = y[1] => known[x] = known[y]
           THEN "episodes-never-vary" ELSE ""
      [] OTHER -> "unknown-event"

Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = "" /\ known = <<>> /\ seen = {}
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET e == Ev[i + 1]
               w == Judge(e)
               d == e.op = "draw" /\ w = ""
           IN  /\ i' = i + 1 /\ tr' = tr
               /\ known' = IF d THEN (<<e.group, e.no>> :> e.cells) @@ known ELSE known
               /\ seen' = IF d THEN seen \cup {e.cells[k] : k \in 1..C.B} ELSE seen
               /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
               /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, known, seen, verdict>>
=============================================================================
