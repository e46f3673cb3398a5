---------------------------- MODULE ImageFilter -----------------------------
(* Filters of images: the steps of a filter are done in order, on what the   *)
(* steps before left.  A step: k, numbers a over d, m the way of resizing.   *)
EXTENDS OpsSem
SE == INSTANCE SequencesExt
\* an image is taken as a batch of images with channels
Image(x) == LET n == Len(x.s) IN
  CASE n = 1 -> [x EXCEPT !.s = <<1, x.s[1], 1, 1>>] [] n = 2 -> [x EXCEPT !.s = <<1, x.s[1], x.s[2], 1>>]
    [] n = 3 -> [x EXCEPT !.s = <<1>> \o x.s] [] n = 4 -> x
    [] n > 4 -> [x EXCEPT !.s = SubSeq(x.s, 1, 3) \o <<Prod(SubSeq(x.s, 4, n))>>]
\* what only moves elements leaves them; floats are told as multiples of 1/sc
Moved(op, p, x, sc) == LET r == Sem(op, p, x, sc) IN
  IF r.k = "val" /\ Flt(r.y[1].t) THEN [k |-> "val", y |-> <<MapT(r.y[1], LAMBDA v : v * sc)>>] ELSE r
Resize(x, H, W, m, sc) == Sem("_resize2d", [type |-> m], <<x, [t |-> "int32", s |-> <<4>>, d |-> <<-1, H, W, -1>>]>>, sc)
\* one number for each channel
PerChannel(op, x, s, sc) == LET c == [t |-> "float32", s |-> <<1, 1, 1, Len(s.a)>>, d |-> [i \in 1 .. Len(s.a) |-> s.a[i] * (4 \div s.d)]]
                            IN Sem(op, [_q |-> 4], <<x, c>>, sc)
Short(x, n) == LET h == x.s[2]  w == x.s[3] IN IF h > w THEN <<(n * h) \div w, n>> ELSE <<n, (n * w) \div h>>
\* the whole image scaled into the corner of the box, the rest the outer value
BoxRatio(x, W, H) == LET h == x.s[2]  w == x.s[3] IN IF W * h <= H * w THEN <<w, W>> ELSE <<h, H>>     \* 1 / scale
BoxExact(r) == r[1] > 0 /\ PowerOf2(r[1] \div Gcd(r[1], r[2])) /\ PowerOf2(r[2] \div Gcd(r[1], r[2]))
StepSem(s, x, sc) ==
  CASE s.k = "to_float" -> Moved("to_float", <<>>, <<x>>, sc)
    [] s.k = "scale" -> Sem("mul", [_q |-> 4], <<x, [t |-> "float32", s |-> <<>>, d |-> <<s.a[1] * (4 \div s.d)>>]>>, sc)
    [] s.k = "sub_mean" -> PerChannel("sub", x, s, sc)
    [] s.k = "div_std" -> PerChannel("div", x, s, sc)
    [] s.k = "resize" -> IF s.a[1] <= 0 \/ s.a[2] <= 0 THEN Free ELSE Resize(x, s.a[2], s.a[1], s.m, sc)
    [] s.k = "resize_short" -> LET z == Short(x, s.a[1]) IN IF s.a[1] <= 0 THEN Free ELSE IF x.s[2] = 0 \/ x.s[3] = 0 THEN Err ELSE Resize(x, z[1], z[2], s.m, sc)
    [] s.k = "center_crop" ->
         LET t == TDiv(s.a[2] - x.s[2], 2)  l == TDiv(s.a[1] - x.s[3], 2)
         IN Moved("pad", [padding_value |-> <<0>>], <<x, [t |-> "int32", s |-> <<4, 2>>, d |-> <<0, 0, t, s.a[2] - x.s[2] - t, l, s.a[1] - x.s[3] - l, 0, 0>>]>>, sc)
    [] s.k = "divided" -> Moved("divided", [size |-> <<1, s.a[2], s.a[1], 1>>, padding_value |-> <<s.a[3]>>], <<x>>, sc)
    [] s.k = "channel_swap" -> Moved("_dimshuffle", [dim |-> 3, shuffle |-> s.a], <<x>>, sc)
    [] s.k = "to_chw" -> Moved("_transpose", [permute |-> <<0, 3, 1, 2>>], <<x>>, sc)
    [] s.k = "prewhiten" -> Sem("prewhiten", <<>>, <<x>>, sc)
    [] s.k = "norm_image" -> Sem("norm_image", <<>>, <<x>>, sc)
    [] s.k = "force_color" -> Moved("force_color", <<>>, <<x>>, 1)
    [] s.k = "force_gray" -> Sem("force_gray", IF s.a = <<>> THEN <<>> ELSE [scale |-> s.a], <<x>>, sc)
\* letter boxes: where a pixel just touches the border of the image rounding decides
BoxOk(s, x, y, sc) ==
  LET W == s.a[1]  H == s.a[2]  r == BoxRatio(x, W, H)  h == x.s[2]  w == x.s[3]  C == x.s[4]
      fl == Flt(x.t)  one == IF fl THEN sc ELSE 1  out == s.a[3] * one
      m == <<r[1], 0, 0, 0, r[1], 0>>
      e == AffineAt(x, 2, H, W, m, r[2], s.m, <<1, out>>, one).y[1]
      tol == IF s.m = 2 THEN 0 ELSE IF fl THEN 2 ELSE 1
      touch(i) == LET j == ((i - 1) \div C) % W  k == ((i - 1) \div (C * W)) % H IN
                  IF s.m = 2 THEN LET half(z) == (2 * z) % r[2] = 0 /\ ((2 * z) \div r[2]) % 2 = 1 IN half(j * r[1]) \/ half(k * r[1])
                  ELSE j * r[1] = r[2] * (w - 1) \/ k * r[1] = r[2] * (h - 1)
  IN /\ y.t = x.t /\ y.s = <<x.s[1], H, W, C>> /\ Len(y.d) = Len(e.d)
     /\ \A i \in 1 .. Len(y.d) : (touch(i) /\ ~BoxExact(r)) \/ Abs(y.d[i] - e.d[i]) <= tol
\* the result (or the refusal) of one step told in full
Near(r, y) == \/ r.k = "any"
              \/ /\ r.k = "val" /\ y.t = r.y[1].t /\ y.s = r.y[1].s /\ Len(y.d) = Len(r.y[1].d)
                 /\ LET t == IF Flt(y.t) THEN Get(r, "tol", 0) ELSE Get(r, "itol", 0) IN
                    \A i \in 1 .. Len(y.d) : Abs(y.d[i] - r.y[1].d[i]) <= t + (IF t = 0 THEN 0 ELSE Abs(y.d[i]) \div 20000)
StepOk(s, x, sc, err, y) ==
  IF x.s = <<>> THEN err = "ts"
  ELSE IF s.k = "letterbox" THEN (LET z == Image(x) IN IF s.a[1] <= 0 \/ s.a[2] <= 0 THEN err \in {"", "ts"}
                                                      ELSE err = "" /\ (s.m = 1 \/ z.s[2] = 0 \/ z.s[3] = 0 \/ BoxOk(s, z, y, sc)))
  ELSE LET r == TLCEval(StepSem(s, Image(x), sc)) IN
       IF err = "" THEN Near(r, y) ELSE err = "ts" /\ r.k \in {"err", "any"}
=============================================================================
