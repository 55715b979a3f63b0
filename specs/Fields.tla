-------------------------------- MODULE Fields --------------------------------
(***************************************************************************)
(* Values as they appear in a configuration or specification, and the       *)
(* documented constraints on them.  A value is a record with a type t:      *)
(* "int", "float" (n/d), "nan", "str" (s), "bool", "none", "list", "tuple"  *)
(* (items), "dict".                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Num(v) == v.t \in {"int", "float"}
IsInt(v) == v.t = "int"
Seq2(v) == v.t \in {"list", "tuple"}
Tuple2(v) == v.t = "tuple" /\ Len(v.items) = 2
Le(a, b) == a.n * b.d <= b.n * a.d
PosInt(v) == IsInt(v) /\ v.n > 0
NonNegInt(v) == IsInt(v) /\ v.n >= 0
Pos(v) == Num(v) /\ v.n > 0
NonNeg(v) == Num(v) /\ v.n >= 0
Prob(v) == Num(v) /\ v.n >= 0 /\ v.n <= v.d
Bool(v) == v.t = "bool"
AllItems(v, P(_)) == \A k \in 1..Len(v.items) : P(v.items[k])
Ordered(v) == Le(v.items[1], v.items[2])
\* a range of positive numbers; of correlations
PosRange(v) == Len(v.items) = 2 /\ AllItems(v, Pos) /\ Ordered(v)
Corr(v) == Num(v) /\ v.n < v.d /\ v.n > (0 - v.d)
CorrRange(v) == Len(v.items) = 2 /\ AllItems(v, Corr) /\ Ordered(v)

\* rational arithmetic on [n, d]
Rat(n, d) == [n |-> n, d |-> d]
Plus(a, b) == Rat((a.n * b.d) + (b.n * a.d), a.d * b.d)
Minus(a, b) == Rat((a.n * b.d) - (b.n * a.d), a.d * b.d)
Times(a, b) == Rat(a.n * b.n, a.d * b.d)
Over(a, b) == IF b.n > 0 THEN Rat(a.n * b.d, a.d * b.n) ELSE Rat(0 - (a.n * b.d), 0 - (a.d * b.n))
Rle(a, b) == a.n * b.d <= b.n * a.d
Floor(a) == a.n \div a.d

\* the constraint of a field of an image specification; lists of ranges are lists
\* of tuples, pairs are tuples.  seq(v): which types count as tuples / lists.
FieldNames == {"batch_size", "image_shape", "img_offset", "seeding_density_range", "p_hide_img1",
               "p_hide_img2", "diameter_ranges", "diameter_var", "intensity_ranges", "intensity_var",
               "rho_ranges", "rho_var", "dt", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std"}
FieldOk(f, v, Tup(_), Lst(_)) ==
    LET pair(P(_)) == Tup(v) /\ Len(v.items) = 2 /\ AllItems(v, P)
        ranges(R(_)) == /\ Lst(v) /\ Len(v.items) > 0
                        /\ \A k \in 1..Len(v.items) : Tup(v.items[k]) /\ R(v.items[k])
    IN  CASE f = "batch_size" -> PosInt(v)
          [] f = "image_shape" -> pair(PosInt)
          [] f = "img_offset" -> pair(NonNeg)
          [] f = "seeding_density_range" -> pair(NonNeg) /\ Ordered(v)
          [] f \in {"p_hide_img1", "p_hide_img2"} -> Prob(v)
          [] f \in {"diameter_ranges", "intensity_ranges"} -> ranges(PosRange)
          [] f = "rho_ranges" -> ranges(CorrRange)
          [] f = "dt" -> Pos(v)
          [] OTHER -> NonNeg(v)
IsTuple(v) == v.t = "tuple"
IsList(v) == v.t = "list"
SpecFieldOk(f, v) == FieldOk(f, v, IsTuple, IsList)
ConfigFieldOk(f, v) == FieldOk(f, v, Seq2, Seq2)
===============================================================================
