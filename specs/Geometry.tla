------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Which image placements a synthetic sampler admits.  Per axis, lengths in   *)
(* a common small unit: the image lies at off .. off+img inside a flow field  *)
(* 0 .. size; speeds (times the time step) range over lo .. hi.               *)
(* The model moves single particles: a placement is good if every particle    *)
(* that can be seen in either image is seeded inside the field.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max0(v) == IF v > 0 THEN v ELSE 0
AxisFits(a) == /\ a.off >= Max0(a.hi)
               /\ a.off + a.img + Max0(-a.lo) <= a.size
Fits(y, x) == AxisFits(y) /\ AxisFits(x)

\* shape of the flow field returned for an image of n pixels with num/den
\* velocities per pixel
FlowLen(n, num, den) == (n * num) \div den

\* ------------------------------------------------------------------ model
CONSTANTS N, Swap, NoLow
VARIABLES a, start, v, seen, pc
vars == <<a, start, v, seen, pc>>
Axes == {r \in [off : 0..N, img : 1..N, size : 1..N, lo : -2..2, hi : -2..2] : r.lo <= r.hi}
Admit(r) == IF Swap THEN r.off >= Max0(-r.lo) /\ r.off + r.img + Max0(r.hi) <= r.size
            ELSE IF NoLow THEN r.off >= Max0(r.hi) /\ r.off + r.img <= r.size
            ELSE AxisFits(r)
Init == a \in Axes /\ pc = "config" /\ start = 0 /\ v = 0 /\ seen = FALSE
Refuse == pc = "config" /\ ~Admit(a) /\ pc' = "refused" /\ UNCHANGED <<a, start, v, seen>>
Accept == pc = "config" /\ Admit(a) /\ pc' = "seed" /\ UNCHANGED <<a, start, v, seen>>
\* any particle, also one outside the field, that moves with an admitted speed
Seed == pc = "seed" /\ \E s \in -N..2 * N, w \in a.lo..a.hi :
          /\ start' = s /\ v' = w
          /\ seen' = \/ s \in a.off..(a.off + a.img)
                     \/ s + w \in a.off..(a.off + a.img)
          /\ pc' = "moved" /\ UNCHANGED a
Next == Refuse \/ Accept \/ Seed
Spec == Init /\ [][Next]_vars
\* accepted: whatever can be seen comes from the field
Sound == pc = "moved" /\ seen => start \in 0..a.size
\* refused: something that can be seen would come from outside the field
Missing(r) == \E s \in -N..3 * N, w \in r.lo..r.hi :
                 /\ (s \in r.off..(r.off + r.img) \/ s + w \in r.off..(r.off + r.img))
                 /\ s \notin 0..r.size
Tight == pc = "refused" => Missing(a)
=============================================================================
