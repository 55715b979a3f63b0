------------------------------- MODULE Factory -------------------------------
(***************************************************************************)
(* Building a pipeline from a configuration, in abstract terms.  The        *)
(* configuration fixes the file class, whether images come from files,      *)
(* buffer, episode length, batch size B, flow fields per batch F, batches   *)
(* per flow batch K, and the dataset the frames per sequence.               *)
(*                                                                         *)
(* The machine checks, builds the layers one after the other and finally    *)
(* takes a first batch, which fails when a layer serves another batch size  *)
(* than it is asked for.  WrongSize = TRUE is the broken variant building   *)
(* the layers with the batch size whatever the sampler asks for.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxB, MaxEp, MaxFrames, WrongSize
VARIABLES c, pc, layers, sizes
vars == <<c, pc, layers, sizes>>

Configs == [cls : {".mat", ".h5", ".npy"}, images : BOOLEAN, buf : 0..2, ep : 0..MaxEp, B : 1..MaxB, F : 1..MaxB,
            K : 1..2, frames : 1..MaxFrames]
Accepts(k) == /\ k.images => k.cls = ".mat"
              /\ k.ep > 0 => (k.cls = ".mat" /\ k.frames >= k.ep)
              /\ ~k.images => k.F <= k.B
\* what the sampler asks its scheduler for
Asks(k) == IF k.images THEN k.B ELSE k.F
Layers(k) == (IF k.buf > 0 THEN <<"prefetch">> ELSE <<>>) \o (IF k.ep > 0 THEN <<"episodic">> ELSE <<>>) \o <<k.cls>>
\* batches generated from a flow batch
Repeat(k) == IF k.images \/ k.ep > 0 THEN 1 ELSE k.K

LayerSize == IF WrongSize THEN c.B ELSE Asks(c)
Init == c \in Configs /\ pc = "start" /\ layers = <<>> /\ sizes = <<>>
Refuse == pc = "start" /\ ~Accepts(c) /\ pc' = "refused" /\ UNCHANGED <<c, layers, sizes>>
Base == pc = "start" /\ Accepts(c) /\ layers' = <<c.cls>> /\ pc' = "base" /\ UNCHANGED <<c, sizes>>
Episodic == pc = "base" /\ c.ep > 0 /\ pc' = "episodic" /\ layers' = <<"episodic">> \o layers
            /\ sizes' = <<LayerSize>> \o sizes /\ UNCHANGED c
Prefetch == /\ (pc = "episodic" \/ (pc = "base" /\ c.ep = 0)) /\ c.buf > 0 /\ pc' = "prefetch"
            /\ layers' = <<"prefetch">> \o layers /\ sizes' = <<LayerSize>> \o sizes /\ UNCHANGED c
Sample == /\ \/ pc = "prefetch" \/ (pc = "episodic" /\ c.buf = 0) \/ (pc = "base" /\ c.ep = 0 /\ c.buf = 0)
          /\ pc' = "sampler" /\ UNCHANGED <<c, layers, sizes>>
First == /\ pc = "sampler"
         /\ pc' = IF \E k \in 1..Len(sizes) : sizes[k] # Asks(c) THEN "fails" ELSE "first"
         /\ UNCHANGED <<c, layers, sizes>>
Next == Refuse \/ Base \/ Episodic \/ Prefetch \/ Sample \/ First
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
BuiltAsAsked == pc \in {"sampler", "first"} => layers = Layers(c)
RefusedOnlyBad == pc = "refused" => ~Accepts(c)
NeverFails == pc # "fails"
Decided == <>(pc \in {"refused", "first", "fails"})
Emit == pc \in {"first", "refused"} => PrintT(<<"SCN", ToJson([c |-> c, ok |-> pc = "first"])>>)
===============================================================================
