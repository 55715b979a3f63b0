----------------------------- MODULE FormatTrace -----------------------------
(* P05: what a file stores is what a caller gets.  A trace is one file set;   *)
(* the configuration says what was stored (a pattern, so that TLC can compute *)
(* every expected value), the events what came out.  Values are scaled by S.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, verdict
C == Traces[tr].cfg
Ev == Traces[tr].ev
S == 64

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= 1

\* Stored flow value of slice s of file f at row y, column x, component c (from 0).
Code(f, s, y, x, c) == f * 400 + s * 100 + (y * 7 + x) * 2 + c + 1
Stored(f, s, y, x, c) ==
    CASE C.pat = "code"  -> Code(f, s, y, x, c)
      [] C.pat = "const" -> IF c = 0 THEN 2 + f ELSE 5 + f
      [] C.pat = "rows"  -> 8 * (y + 1) + f
      [] C.pat = "cols"  -> 8 * (x + 1) + f
StoredImage(k, y, x) ==
    CASE C.pat = "code"  -> (k * 50 + y * 7 + x) % 256
      [] C.pat = "const" -> 10 + 20 * k
      [] C.pat = "rows"  -> 16 * y + k
      [] C.pat = "cols"  -> 16 * x + k

At(v, w, y, x, c, nc) == v[(y * w + x) * nc + c + 1]

\* One delivered flow: shape, values.  H, W stored; oh, ow expected.
FlowOK(e) ==
    LET v == e.flow
        w == C.ow
        ys == 0..(C.oh - 1)
        xs == 0..(C.ow - 1)
        \* the ratio of component c is num/den
        num(c) == IF c = 0 THEN C.ow ELSE C.oh
        den(c) == IF c = 0 THEN C.w ELSE C.h
        exact(y, x, c) == At(v, w, y, x, c, 2) = S * Stored(e.f, e.s, y, x, c)
        scaled(y, x, c) == At(v, w, y, x, c, 2) * den(c)   \* = S * num(c) * interpolated
        lo(c) == S * num(c) * Stored(e.f, e.s, 0, 0, c)
        hi(c) == S * num(c) * Stored(e.f, e.s, C.h - 1, C.w - 1, c)
    IN  IF e.fshape # <<C.oh, C.ow, 2>> THEN "flow-shape"
        ELSE IF C.h = C.oh /\ C.w = C.ow
        THEN IF \A y \in ys, x \in xs, c \in 0..1 : exact(y, x, c) THEN "" ELSE "flow-value"
        ELSE IF C.pat = "const"
        THEN IF \A y \in ys, x \in xs, c \in 0..1 :
                   Abs(scaled(y, x, c) - lo(c)) <= den(c) THEN "" ELSE "flow-ratio"
        ELSE IF C.pat = "rows"
        THEN IF \E y \in ys, x \in xs, c \in 0..1 :
                  ~Near(At(v, w, y, x, c, 2), At(v, w, y, 0, c, 2)) THEN "flow-rows-mixed"
             ELSE IF \E y \in 1..(C.oh - 1), c \in 0..1 :
                  At(v, w, y, 0, c, 2) < At(v, w, y - 1, 0, c, 2) THEN "flow-rows-order"
             ELSE IF \E y \in ys, c \in 0..1 :
                  scaled(y, 0, c) < lo(c) - den(c) \/ scaled(y, 0, c) > hi(c) + den(c)
                  THEN "flow-ratio"
             ELSE IF \E c \in 0..1 : At(v, w, C.oh - 1, 0, c, 2) = At(v, w, 0, 0, c, 2)
                  THEN "flow-flat" ELSE ""
        ELSE IF \E y \in ys, x \in xs, c \in 0..1 :
                  ~Near(At(v, w, y, x, c, 2), At(v, w, 0, x, c, 2)) THEN "flow-cols-mixed"
             ELSE IF \E x \in 1..(C.ow - 1), c \in 0..1 :
                  At(v, w, 0, x, c, 2) < At(v, w, 0, x - 1, c, 2) THEN "flow-cols-order"
             ELSE IF \E x \in xs, c \in 0..1 :
                  scaled(0, x, c) < lo(c) - den(c) \/ scaled(0, x, c) > hi(c) + den(c)
                  THEN "flow-ratio"
             ELSE IF \E c \in 0..1 : At(v, w, 0, C.ow - 1, c, 2) = At(v, w, 0, 0, c, 2)
                  THEN "flow-flat" ELSE ""

\* One delivered image (frame k); nc channels, all equal.
ImageOK(v, shape, k) ==
    LET nc == IF C.rgb = 1 THEN 3 ELSE 1
        ys == 0..(C.oh - 1)
        xs == 0..(C.ow - 1)
        a(y, x, c) == At(v, C.ow, y, x, c, nc)
        tol == IF C.rgb = 1 THEN 3 ELSE 0    \* JPEG
    IN  IF shape # (IF C.rgb = 1 THEN <<C.oh, C.ow, 3>> ELSE <<C.oh, C.ow>>) THEN "image-shape"
        ELSE IF C.h = C.oh /\ C.w = C.ow
        THEN IF \A y \in ys, x \in xs, c \in 0..(nc - 1) :
                  Abs(a(y, x, c) - StoredImage(k, y, x)) <= tol THEN "" ELSE "image-value"
        ELSE IF C.pat = "const"
        THEN IF \A y \in ys, x \in xs : Abs(a(y, x, 0) - StoredImage(k, 0, 0)) <= 1 THEN "" ELSE "image-value"
        ELSE IF C.pat = "rows"
        THEN IF \E y \in ys, x \in xs : ~Near(a(y, x, 0), a(y, 0, 0)) THEN "image-rows-mixed"
             ELSE IF \E y \in 1..(C.oh - 1) : a(y, 0, 0) < a(y - 1, 0, 0) - 1 THEN "image-rows-order"
             ELSE IF a(C.oh - 1, 0, 0) - a(0, 0, 0) < 8 THEN "image-flat" ELSE ""
        ELSE IF \E y \in ys, x \in xs : ~Near(a(y, x, 0), a(0, x, 0)) THEN "image-cols-mixed"
             ELSE IF \E x \in 1..(C.ow - 1) : a(0, x, 0) < a(0, x - 1, 0) - 1 THEN "image-cols-order"
             ELSE IF a(0, C.ow - 1, 0) - a(0, 0, 0) < 8 THEN "image-flat" ELSE ""

Judge(e) ==
    CASE e.op = "slice" ->
           IF e.kind # "ok" THEN "not-delivered"
           ELSE IF e.f # e.wf \/ e.s # e.ws THEN "wrong-file-or-slice"
           ELSE LET w == FlowOK(e) IN
             IF w # "" THEN w
             ELSE IF C.img = 0 THEN (IF e.im1 = <<>> /\ e.im2 = <<>> THEN "" ELSE "unexpected-image")
             ELSE LET w1 == ImageOK(e.im1, e.shape1, 2 * e.f - 1)
                  IN  IF w1 # "" THEN w1 ELSE ImageOK(e.im2, e.shape2, 2 * e.f)
      [] e.op = "shape" -> IF e.kind = "ok" /\ e.fshape = <<C.oh, C.ow, 2>> THEN "" ELSE "advertised-shape"
      [] e.op = "end" -> IF e.kind = "stop" THEN "" ELSE "extra-data"
      [] e.op = "dir" -> IF e.kind = "ok" /\ e.got = e.want THEN "" ELSE "directory-expansion"
      [] OTHER -> "unknown-event"

Init == tr \in 1..Len(Traces) /\ i = 0 /\ verdict = ""
Step == /\ verdict = "" /\ i < Len(Ev)
        /\ LET w == Judge(Ev[i + 1]) IN
             /\ i' = i + 1 /\ tr' = tr
             /\ verdict' = IF w # "" THEN w ELSE IF i + 1 = Len(Ev) THEN "ok" ELSE ""
             /\ (verdict' = "" \/ PrintT(<<"VERDICT", tr, verdict', i + 1>>))
TraceSpec == Init /\ [][Step]_<<tr, i, verdict>>
=============================================================================
