------------------------------ MODULE Arguments ------------------------------
(***************************************************************************)
(* Which arguments the constructors and input checks accept.  A call is a     *)
(* record of argument values (see Fields); files are named by tokens:          *)
(*   @a, @b   files of the right kind     @dir    directory with such files     *)
(*   @empty   directory without files     @wrong  file of another kind          *)
(*   @none    no such file                @bare   frame without its images      *)
(* schedulers: @plain, @images, layers over one with images (@episodic,         *)
(* @prefetch, @both) or without (@blind...); @thing is none.                    *)
(* An array is [t |-> "array", items |-> shape, sum |-> total], or "ndarray".   *)
(***************************************************************************)
EXTENDS Fields, TLC

TuplePos(v) == v.t = "tuple" /\ Len(v.items) = 2 /\ AllItems(v, Pos)
TuplePosInt(v) == v.t = "tuple" /\ Len(v.items) = 2 /\ AllItems(v, PosInt)
TupleNonNeg(v) == v.t = "tuple" /\ Len(v.items) = 2 /\ AllItems(v, NonNeg)
TupleNonNegInt(v) == v.t = "tuple" /\ Len(v.items) = 2 /\ AllItems(v, NonNegInt)
Unit(v) == v.t = "str" /\ v.s \in {"pixels", "measure units per second"}
Array(v, n) == v.t = "array" /\ Len(v.items) = n
Last(v) == v.items[Len(v.items)]
\* every entry exists and is of the right kind, and there is at least one file
Files(v, good) == /\ v.t = "list" /\ Len(v.items) > 0
                  /\ \A k \in 1..Len(v.items) : v.items[k].t = "str" /\ v.items[k].s \in good \cup {"@empty"}
                  /\ \E k \in 1..Len(v.items) : v.items[k].t = "str" /\ v.items[k].s \in good
Token(v, S) == v.t = "str" /\ v.s \in S
Seeing == {"@images", "@episodic", "@prefetch", "@both"}
Schedulers == Seeing \cup {"@plain", "@blindepisodic", "@blindprefetch", "@blindboth"}

\* which calls are admissible: f is the callable, a its arguments
Ok(f, a) ==
    CASE f = "h5" -> Files(a.file_list, {"@a", "@b", "@dir"}) /\ Bool(a.randomize) /\ Bool(a.loop)
      [] f = "npy" -> /\ Bool(a.include_images) /\ Bool(a.randomize) /\ Bool(a.loop)
                      /\ Files(a.file_list, {"@a", "@b", "@dir"} \cup (IF a.include_images.n = 1 THEN {} ELSE {"@bare"}))
      [] f = "mat" -> /\ Files(a.file_list, {"@a", "@b", "@dir"}) /\ Bool(a.randomize) /\ Bool(a.loop)
                      /\ Bool(a.include_images) /\ TuplePosInt(a.output_shape)
      \* every sequence has 4 frames
      [] f = "episodic" -> /\ Token(a.scheduler, Schedulers) /\ PosInt(a.batch_size)
                           /\ PosInt(a.episode_length) /\ a.episode_length.n <= 4
      [] f = "prefetch" -> /\ PosInt(a.batch_size) /\ PosInt(a.buffer_size)
                           /\ Pos(a.startup_timeout) /\ Pos(a.steady_state_timeout)
      [] f = "real" -> Token(a.scheduler, Seeing) /\ PosInt(a.batch_size)
      \* image 8 x 10, batch size 4
      [] f = "synthetic" ->
            /\ Token(a.scheduler, Schedulers) /\ PosInt(a.batches_per_flow_batch)
            /\ PosInt(a.flow_fields_per_batch) /\ a.flow_fields_per_batch.n <= 4
            /\ Seq2(a.flow_field_size) /\ Len(a.flow_field_size.items) = 2 /\ AllItems(a.flow_field_size, Pos)
            /\ Pos(a.resolution)
            /\ Pos(a.velocities_per_pixel) /\ 8 * a.velocities_per_pixel.n >= a.velocities_per_pixel.d
            /\ Unit(a.output_units) /\ NonNegInt(a.seed)
            /\ Num(a.max_speed_x) /\ Num(a.min_speed_x) /\ Le(a.min_speed_x, a.max_speed_x)
            /\ Num(a.max_speed_y) /\ Num(a.min_speed_y) /\ Le(a.min_speed_y, a.max_speed_y)
            /\ (a.mask_images.t = "none" \/ (Array(a.mask_images, 2) /\ a.mask_images.items = <<8, 10>>))
            /\ (a.histogram.t = "none" \/ (Array(a.histogram, 1) /\ a.histogram.items = <<256>> /\ a.histogram.sum = 80))
            /\ (a.device_ids.t = "none" \/ (a.device_ids.t = "list" /\ a.device_ids.items = <<[t |-> "int", n |-> 0, d |-> 1]>>))
      [] f = "adapter" ->
            /\ Array(a.flow_field, 4) /\ Last(a.flow_field) = 2 /\ TuplePosInt(a.new_flow_field_shape)
            /\ TuplePosInt(a.image_shape) /\ TupleNonNeg(a.img_offset) /\ Pos(a.resolution) /\ Pos(a.res_x) /\ Pos(a.res_y)
            /\ TuplePos(a.position_bounds) /\ TupleNonNeg(a.position_bounds_offset) /\ PosInt(a.batch_size)
            /\ Unit(a.output_units) /\ Pos(a.dt) /\ TupleNonNegInt(a.zero_padding)
      [] f = "apply" ->
            /\ Array(a.particle_positions, 2) /\ Last(a.particle_positions) \in {2, 3}
            /\ Array(a.flow_field, 3) /\ Last(a.flow_field) = Last(a.particle_positions)
            /\ Num(a.dt) /\ Pos(a.flow_field_res_x) /\ Pos(a.flow_field_res_y) /\ Pos(a.flow_field_res_z)
      \* image 8 x 10 at offset (2, 3)
      [] f = "generate" ->
            /\ Array(a.flow_field, 4) /\ Last(a.flow_field) = 2
            /\ Seq2(a.position_bounds) /\ Len(a.position_bounds.items) = 2 /\ AllItems(a.position_bounds, PosInt)
            /\ a.position_bounds.items[1].n >= 10 /\ a.position_bounds.items[2].n >= 13
            /\ Pos(a.flow_field_res_x) /\ Pos(a.flow_field_res_y)
            /\ (a.mask.t = "none" \/ (Array(a.mask, 2) /\ a.mask.items = <<8, 10>>))
            /\ (a.histogram.t = "none" \/ (Array(a.histogram, 1) /\ a.histogram.items = <<256>> /\ a.histogram.sum = 80))
      [] OTHER -> FALSE

\* ------------------------------------------------------------------ model
\* A constructor checks its arguments one after the other and builds the object
\* only if none failed.
CONSTANTS N, Skip, Early
VARIABLES args, k, built, failed
vars == <<args, k, built, failed>>
Init == args \in [1..N -> BOOLEAN] /\ k = 1 /\ built = FALSE /\ failed = FALSE
Check == /\ k <= N /\ ~failed /\ failed' = (~args[k] /\ k # Skip) /\ k' = k + 1
         /\ built' = (built \/ (Early /\ k = 1)) /\ UNCHANGED args
Build == k > N /\ ~failed /\ ~built /\ built' = TRUE /\ UNCHANGED <<args, k, failed>>
Next == Check \/ Build
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllGood == \A j \in 1..N : args[j]
Sound == built => AllGood
Complete == AllGood => <>built
=============================================================================
