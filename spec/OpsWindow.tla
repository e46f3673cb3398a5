----------------------------- MODULE OpsWindow -----------------------------
(* Windowed operators, products of matrices, resampling, and the paddings    *)
(* that make up a window's output size.  Layout N, C, H, W.                  *)
EXTENDS OpsMath
NotFloat(x) == ~Flt(x.t)
P8(p) == <<p[5], p[6], p[7], p[8]>>                         \* top, bottom, left, right
PadOk(p) == Len(p) = 8 /\ p[1] = 0 /\ p[2] = 0 /\ p[3] = 0 /\ p[4] = 0
FourOk(s) == Len(s) = 4 /\ s[1] = 1 /\ s[2] = 1
HasDilation(p) == "dilation" \in DOMAIN p \/ "dialations" \in DOMAIN p
Dilation(p) == IF "dilation" \in DOMAIN p THEN p.dilation ELSE p.dialations
\* element (n, c, h, w) of x, v outside of the image
Pixel(x, n, c, h, w, v) == IF h < 0 \/ h >= x.s[3] \/ w < 0 \/ w >= x.s[4] THEN v
                           ELSE x.d[((n * x.s[2] + c) * x.s[3] + h) * x.s[4] + w + 1]
Reach(k, d) == d * (k - 1) + 1
OutSize(n, pads, k, s, d) == (n + pads - Reach(k, d)) \div s + 1
\* sum over the window of w (channel co of output, all input channels)
ConvAt(x, w, n, co, i, j, pad, s, d, pv) ==
  LET C == w.s[2]  kh == w.s[3]  kw == w.s[4]
      term(t) == LET c == t \div (kh * kw)  a == (t \div kw) % kh  b == t % kw
                 IN w.d[co * C * kh * kw + t + 1] * Pixel(x, n, c, i * s[3] - pad[1] + a * d[3], j * s[4] - pad[3] + b * d[4], pv)
  IN SumSeq([t \in 1 .. C * kh * kw |-> term(t - 1)])
Conv(x, w, pad8, s, d, pv) ==
  LET pad == P8(pad8)
      h == OutSize(x.s[3], pad[1] + pad[2], w.s[3], s[3], d[3])
      u == OutSize(x.s[4], pad[3] + pad[4], w.s[4], s[4], d[4])
  IN IF h <= 0 \/ u <= 0 THEN Free
     ELSE One(Gen(x.t, <<x.s[1], w.s[1], h, u>>, LAMBDA c : ConvAt(x, w, c[1], c[2], c[3], c[4], pad, s, d, pv)))
Depthwise(x, w, pad8, s, d, pv) ==
  LET pad == P8(pad8)  kh == w.s[3]  kw == w.s[4]
      h == OutSize(x.s[3], pad[1] + pad[2], kh, s[3], d[3])
      u == OutSize(x.s[4], pad[3] + pad[4], kw, s[4], d[4])
      at(n, c, i, j) == SumSeq([t \in 1 .. kh * kw |->
                          w.d[c * kh * kw + t] * Pixel(x, n, c, i * s[3] - pad[1] + ((t - 1) \div kw) * d[3], j * s[4] - pad[3] + ((t - 1) % kw) * d[4], pv)])
  IN IF h <= 0 \/ u <= 0 THEN Free
     ELSE One(Gen(x.t, <<x.s[1], x.s[2], h, u>>, LAMBDA c : at(c[1], c[2], c[3], c[4])))
\* every element of x adds its multiple of the window of w
Transposed(x, w, pad8, s, d) ==
  LET pad == P8(pad8)  Ci == w.s[1]  Co == w.s[2]  kh == w.s[3]  kw == w.s[4]
      h == (x.s[3] - 1) * s[3] + Reach(kh, d[3]) - pad[1] - pad[2]
      u == (x.s[4] - 1) * s[4] + Reach(kw, d[4]) - pad[3] - pad[4]
      from(z, m) == IF z % m = 0 THEN z \div m ELSE -1             \* position of x that reaches z, or none
      term(n, co, i, j, t) ==
        LET ci == t \div (kh * kw)  a == (t \div kw) % kh  b == t % kw
            y == i + pad[1] - a * d[3]  z == j + pad[3] - b * d[4]
        IN IF y < 0 \/ z < 0 THEN 0
           ELSE w.d[((ci * Co + co) * kh + a) * kw + b + 1] * Pixel(x, n, ci, from(y, s[3]), from(z, s[4]), 0)
  IN IF h <= 0 \/ u <= 0 THEN Free
     ELSE One(Gen(x.t, <<x.s[1], Co, h, u>>, LAMBDA c : SumSeq([t \in 1 .. Ci * kh * kw |-> term(c[1], c[2], c[3], c[4], t - 1)])))
ConvOp(op, p, x, w, pad) ==
  LET s == p.stride  kind == IF op = "transpose_conv2d" THEN 2 ELSE IF op \in {"depthwise_conv2d", "depthwise_conv2d_v2"} THEN 1 ELSE 0
      pv == Get(p, "padding_value", 0)
  IN IF p.format # "NCHW" \/ ~HasDilation(p) THEN Err
     ELSE LET d == Dilation(p) IN
     IF ~PadOk(pad) \/ ~FourOk(s) \/ ~FourOk(d) THEN Err
     ELSE IF Len(x.s) # 4 \/ Len(w.s) # 4 \/ x.t # w.t \/ NotFloat(x) THEN Err
     ELSE CASE kind = 0 -> (IF w.s[2] # x.s[2] THEN Err ELSE Conv(x, w, pad, s, d, pv))
            [] kind = 1 -> (IF w.s[2] # x.s[2] \/ w.s[1] # 1 THEN Err ELSE Depthwise(x, w, pad, s, d, pv))
            [] kind = 2 -> (IF w.s[1] # x.s[2] THEN Err ELSE Transposed(x, w, pad, s, d))
\* a convolution with a 3 x 3 kernel and stride 1, computed otherwise
Winograd(p, x, w, pad, sc) ==
  IF p.format # "NCHW" \/ ~PadOk(pad) \/ Len(x.s) # 4 \/ Len(w.s) # 4 \/ x.t # w.t \/ NotFloat(x) THEN Err
  ELSE IF w.s[2] # x.s[2] \/ w.s[3] # 3 \/ w.s[4] # 3 THEN Err
  ELSE IF x.t # "float32" THEN Free
  ELSE LET r == Conv(x, w, pad, <<1, 1, 1, 1>>, <<1, 1, 1, 1>>, Get(p, "padding_value", 0))
       IN IF r.k # "val" THEN r ELSE One(MapT(r.y[1], LAMBDA v : v * sc))
-----------------------------------------------------------------------------
\* the part of the window at i that lies in an image of n
Cells(i, s, before, k, n) == LET b == i * s - before IN <<MaxOf(b, 0), MinOf(b + k, n)>>
PoolAt(x, n, c, hs, ws, F(_)) ==
  LET H == hs[2] - hs[1]  W == ws[2] - ws[1]
  IN F([t \in 1 .. H * W |-> Pixel(x, n, c, hs[1] + ((t - 1) \div W), ws[1] + ((t - 1) % W), 0)])
Pool(x, type, white, pad8, k, s, sc) ==
  LET pad == P8(pad8)
      out(n, pads, kk, ss) == CeilDiv(n + pads - kk, ss) + 1
      h == out(x.s[3], pad[1] + pad[2], k[3], s[3])
      u == out(x.s[4], pad[3] + pad[4], k[4], s[4])
      at(n, c, i, j) ==
        LET hs == Cells(i, s[3], pad[1], k[3], x.s[3])  ws == Cells(j, s[4], pad[3], k[4], x.s[4]) IN
        IF hs[1] >= hs[2] \/ ws[1] >= ws[2] THEN 0                                   \* nothing of the image
        ELSE IF type = 0 THEN PoolAt(x, n, c, hs, ws, LAMBDA v : MaxLine(v, 1)) * sc
        ELSE LET cnt == IF white THEN k[3] * k[4] ELSE (hs[2] - hs[1]) * (ws[2] - ws[1])
             IN Scaled(PoolAt(x, n, c, hs, ws, SumSeq), cnt, sc)
  IN IF x.s[3] + pad[1] + pad[2] < k[3] \/ x.s[4] + pad[3] + pad[4] < k[4] THEN Free
     ELSE One(Gen(x.t, <<x.s[1], x.s[2], h, u>>, LAMBDA c : at(c[1], c[2], c[3], c[4])))
PoolOp(p, x, pad, k, s, sc) ==
  IF "type" \notin DOMAIN p THEN Err
  ELSE IF p.format # "NCHW" \/ p.type \notin {0, 1} \/ Get(p, "padding_type", 0) \notin {0, 3} THEN Err
  ELSE IF ~PadOk(pad) \/ ~FourOk(k) \/ ~FourOk(s) \/ Len(x.s) # 4 \/ NotFloat(x) THEN Err
  ELSE Pool(x, p.type, Get(p, "padding_type", 0) = 3, pad, k, s, sc)
Global(p, x, sc) ==
  IF p.format # "NCHW" \/ Len(x.s) # 4 \/ NotFloat(x) THEN Err
  ELSE Pool(x, p.type, FALSE, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 1, x.s[3], x.s[4]>>, <<1, 1, 1, 1>>, sc)
-----------------------------------------------------------------------------
\* matrices by row-major sequences: element (i, j) of op(A)
MAt(x, tr, i, j) == IF tr THEN x.d[j * x.s[2] + i + 1] ELSE x.d[i * x.s[2] + j + 1]
Rows(x, tr) == IF tr THEN x.s[2] ELSE x.s[1]
Cols(x, tr) == IF tr THEN x.s[1] ELSE x.s[2]
Product(a, ta, b, tb) ==
  LET K == Cols(a, ta)  N == Cols(b, tb)
  IN GenFlat(a.t, <<Rows(a, ta), N>>, LAMBDA i : SumSeq([k \in 1 .. K |-> MAt(a, ta, i \div N, k - 1) * MAt(b, tb, k - 1, i % N)]))
Gemm(p, a, b, c, sc) ==
  LET al == Get(p, "alpha", <<1, 1>>)  be == Get(p, "beta", <<1, 1>>)
      ta == Get(p, "transA", 0) = 1  tb == Get(p, "transB", 0) = 1
  IN IF Len(a.s) # 2 \/ Len(b.s) # 2 \/ Len(c.s) > 2 \/ a.t # b.t \/ NotFloat(a) \/ (be[1] # 0 /\ c.t # a.t) THEN Err
     ELSE IF Cols(a, ta) # Rows(b, tb) THEN Err
     ELSE LET m == Rows(a, ta)  n == Cols(b, tb)  cs == Lift(c.s, 2)
              ab == Product(a, ta, b, tb)
              cat(i, j) == c.d[(IF cs[1] = 1 THEN 0 ELSE i) * cs[2] + (IF cs[2] = 1 THEN 0 ELSE j) + 1]
          IN IF cs[1] \notin {1, m} \/ cs[2] \notin {1, n} THEN Err
             ELSE One(GenFlat(a.t, <<m, n>>, LAMBDA i :
                    Scaled(al[1] * ab.d[i + 1] * be[2] + (IF be[1] = 0 THEN 0 ELSE be[1] * al[2] * cat(i \div n, i % n)), al[2] * be[2], sc)))
InnerProd(p, a, b) ==
  LET tb == Get(p, "transpose", 0) = 1 IN
  IF a.s = <<>> \/ Len(b.s) # 2 \/ a.t # b.t \/ NotFloat(a) THEN Err
  ELSE LET f == [a EXCEPT !.s = <<a.s[1], Prod(Tail(a.s))>>]
       IN IF f.s[2] # Rows(b, tb) THEN Err ELSE One(Product(f, FALSE, b, tb))
MatMul(a, b) ==
  LET four == Len(a.s) = 4 /\ Len(b.s) = 4 IN
  IF four /\ (a.s[1] # 1 \/ a.s[2] # 1 \/ b.s[1] # 1 \/ b.s[2] # 1) THEN Err
  ELSE LET b2 == IF four THEN [b EXCEPT !.s = SubSeq(b.s, 3, 4)] ELSE b
           n == Len(a.s)
       IN IF Len(b2.s) # 2 \/ n = 0 \/ a.t # b.t \/ NotFloat(a) THEN Err
          ELSE LET k == a.s[n]  f == [a EXCEPT !.s = <<Prod(SubSeq(a.s, 1, n - 1)), k>>]
               IN IF k # b2.s[1] THEN Err
                  ELSE One([Product(f, FALSE, b2, FALSE) EXCEPT !.s = Append(SubSeq(a.s, 1, n - 1), b2.s[2])])
-----------------------------------------------------------------------------
\* resampling of axes at, at + 1 (1-based) of x: result (i, j) is F(its elements, i, j) for every image
Plane(x, at, H, W, F(_, _, _)) ==
  LET h == x.s[at]  w == x.s[at + 1]
      post == Prod(SubSeq(x.s, at + 2, Len(x.s)))
      y == [k \in 1 .. Len(x.s) |-> IF k = at THEN H ELSE IF k = at + 1 THEN W ELSE x.s[k]]
      val(t) == LET c == t % post  j == (t \div post) % W  i == (t \div (post * W)) % H  b == t \div (post * W * H)
                    px == [m \in 0 .. h - 1, n \in 0 .. w - 1 |-> x.d[((b * h + m) * w + n) * post + c + 1]]
                IN F(px, i, j)
  IN One(GenFlat(x.t, y, val))
PowerOf2(n) == n \in {1, 2, 4, 8, 16, 32}
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* dst / src brought to lowest terms: is the scale a binary fraction?
Exact(src, dst) == PowerOf2(dst \div Gcd(src, dst))
Within(v, lo, hi) == MinOf(MaxOf(v, lo), hi)
\* round half away from zero: n / d
Round(n, d) == IF n >= 0 THEN (2 * n + d) \div (2 * d) ELSE -((-2 * n + d) \div (2 * d))
\* centre of element i of dst in the source, as num / (2 dst)
Mid(i, src, dst) == (2 * i + 1) * src - dst
NearestPos(i, src, dst) == Within(Round(Mid(i, src, dst), 2 * dst), 0, src - 1)
HalfWay(src, dst) == \E i \in 0 .. dst - 1 : Mid(i, src, dst) % (2 * dst) = dst                       \* just between two elements
Touch(src, dst) == \E i \in 1 .. dst - 1 : (i * src) % dst = 0                                          \* just at an element
\* the position clamped to the image: whole part and rest over 2 dst
LinearPos(i, src, dst) == LET z == Within(Mid(i, src, dst), 0, (src - 1) * 2 * dst) IN <<z \div (2 * dst), z % (2 * dst)>>
Cvt(t, n, d, sc) == IF Flt(t) THEN Scaled(n, d, sc) ELSE TDiv(n, d)
\* px at whole m, n and rests a / da, b / db
Between(px, m, a, da, n, b, db, h, w, t, sc) ==
  LET m1 == MinOf(m + 1, h - 1)  n1 == MinOf(n + 1, w - 1)
      v == (da - a) * (db - b) * px[m, n] + (da - a) * b * px[m, n1] + a * (db - b) * px[m1, n] + a * b * px[m1, n1]
  IN Cvt(t, v, da * db, sc)
\* weights (times 256) of the cubic at a quarter f
CubicW(f) == CASE f = 0 -> <<0, 256, 0, 0>> [] f = 1 -> <<-27, 225, 67, -9>> [] f = 2 -> <<-24, 152, 152, -24>> [] f = 3 -> <<-9, 67, 225, -27>>
Quarter(src, dst) == \A i \in 0 .. dst - 1 : (4 * Mid(i, src, dst)) % (2 * dst) = 0
\* first element and quarter of the cubic at i: towards the borders the window stays inside, if there is room for one
CubicPos(i, src, dst) == LET n == Mid(i, src, dst)  s == n \div (2 * dst)  f == ((4 * n) \div (2 * dst)) % 4
                         IN IF src < 4 THEN <<s, f>> ELSE IF s >= src - 3 THEN <<src - 3, 0>> ELSE IF s < 1 THEN <<1, 0>> ELSE <<s, f>>
\* it overshoots: integers stay in the range of their type
Sat(t, v) == CASE t = "int8" -> Within(v, -128, 127) [] t = "uint8" -> Within(v, 0, 255) [] t \in {"uint16", "uint32", "uint64"} -> MaxOf(v, 0) [] OTHER -> v
Cubic(px, a, b, h, w, t, Z) ==
  LET u == CubicW(a[2])  v == CubicW(b[2])
      sum == SumSeq([c \in 1 .. 16 |-> LET m == (c - 1) \div 4  n == (c - 1) % 4
                                       IN u[m + 1] * v[n + 1] * px[Within(a[1] + m - 1, 0, h - 1), Within(b[1] + n - 1, 0, w - 1)]])
  IN Sat(t, Cvt(t, sum, 65536, Z))
Resized(x, at, H, W, type, q, sc) ==
  LET h == x.s[at]  w == x.s[at + 1]  Z == sc \div q  IN
  IF h = H /\ w = W THEN One(MapT(x, LAMBDA v : IF Flt(x.t) THEN v * Z ELSE v))
  ELSE CASE type = 2 -> (IF (HalfWay(h, H) /\ ~Exact(h, H)) \/ (HalfWay(w, W) /\ ~Exact(w, W)) THEN Free
                         ELSE Plane(x, at, H, W, LAMBDA px, i, j : px[NearestPos(i, h, H), NearestPos(j, w, W)] * (IF Flt(x.t) THEN Z ELSE 1)))
         [] type = 3 -> (IF (Touch(h, H) /\ ~Exact(h, H)) \/ (Touch(w, W) /\ ~Exact(w, W)) THEN Free
                         ELSE Plane(x, at, H, W, LAMBDA px, i, j : px[(i * h) \div H, (j * w) \div W] * (IF Flt(x.t) THEN Z ELSE 1)))
         [] type = 0 -> Plane(x, at, H, W, LAMBDA px, i, j :
                          LET a == LinearPos(i, h, H)  b == LinearPos(j, w, W)
                          IN Between(px, a[1], a[2], 2 * H, b[1], b[2], 2 * W, h, w, x.t, Z))
         [] type = 1 -> (IF ~Quarter(h, H) \/ ~Quarter(w, W) THEN Free
                         ELSE Plane(x, at, H, W, LAMBDA px, i, j :
                                Cubic(px, CubicPos(i, h, H), CubicPos(j, w, W), h, w, x.t, Z)))
         [] OTHER -> Free
\* integers: what the sum of products keeps of a fraction is not told exactly
ResizeOp(p, x, size, q, sc) ==
  LET z == size.d  n == Len(x.s)
      fits(h) == /\ z[h] > 0 /\ z[h + 1] > 0
                 /\ \A k \in 1 .. n : k \in {h, h + 1} \/ z[k] < 0 \/ z[k] = x.s[k]
      hs == {h \in 1 .. n - 1 : fits(h)}
  IN IF Len(size.s) # 1 \/ size.s[1] # n \/ n < 2 THEN Err
     ELSE IF (\E k \in 1 .. n : z[k] = 0) \/ hs = {} THEN Err
     ELSE LET h == CHOOSE h \in hs : \A g \in hs : h <= g IN
          IF x.s[h] = 0 \/ x.s[h + 1] = 0 THEN Err                                                     \* nothing to take elements from
          ELSE IF \A k \in 1 .. n : z[k] < 0 \/ z[k] = x.s[k] THEN Free ELSE Resized(x, h, z[h], z[h + 1], Get(p, "type", 0), q, sc)
NearestNeighbor(p, x, size, sc) ==
  LET n == Len(x.s)  d == p.dim IN
  IF Len(size.d) # 2 THEN Err
  ELSE IF d < 0 \/ d > n - 2 \/ size.d[1] <= 0 \/ size.d[2] <= 0 THEN Err
  ELSE Resized(x, d + 1, size.d[1], size.d[2], 2, 1, 1)
\* an affine map of positions of the result to positions of the source, over q; outside: the nearest element, or a given value
AffineAt(x, at, H, W, m, q, type, outer, one) ==
  LET h == x.s[at]  w == x.s[at + 1]
      fx(i, j) == m[1] * j + m[2] * i + m[3]
      fy(i, j) == m[4] * j + m[5] * i + m[6]
      pos(z) == IF type = 2 THEN Round(z, q) ELSE TDiv(z, q)
      in(a, n) == a >= 0 /\ a <= n - 1
  IN IF type \in {2, 3}
     THEN Plane(x, at, H, W, LAMBDA px, i, j :
            LET a == pos(fx(i, j))  b == pos(fy(i, j)) IN
            IF outer[1] = 1 /\ ~(in(a, w) /\ in(b, h)) THEN outer[2] ELSE px[Within(b, 0, h - 1), Within(a, 0, w - 1)] * one)
     ELSE IF type = 1                                                                              \* cubic, at quarters
     THEN Plane(x, at, H, W, LAMBDA px, i, j :
            LET a == fx(i, j)  b == fy(i, j)
                ok(z, n) == z \div 4 >= 1 /\ z \div 4 < n - 3
                cp(z, n) == IF n < 4 THEN <<z \div 4, z % 4>> ELSE IF z \div 4 >= n - 3 THEN <<n - 3, 0>> ELSE IF z \div 4 < 1 THEN <<1, 0>> ELSE <<z \div 4, z % 4>>
            IN IF outer[1] = 1 /\ ~(ok(a, w) /\ ok(b, h)) THEN outer[2] ELSE Cubic(px, cp(b, h), cp(a, w), h, w, x.t, one))
     ELSE Plane(x, at, H, W, LAMBDA px, i, j :
            LET a == fx(i, j)  b == fy(i, j)
                c == Within(a, 0, q * (w - 1))  d == Within(b, 0, q * (h - 1))
            IN IF outer[1] = 1 /\ ~(in(a, q * (w - 1) + 1) /\ in(b, q * (h - 1) + 1)) THEN outer[2]
               ELSE Between(px, d \div q, d % q, q, c \div q, c % q, q, h, w, x.t, one))
AffinePick(x, at, H, W, m, q, type, outer, sc) ==
  AffineAt(x, at, H, W, m, q, type, <<outer[1], IF Flt(x.t) THEN outer[2] * sc ELSE outer[2]>>, IF Flt(x.t) THEN sc \div q ELSE 1)
AffineOp(p, x, size, m, sc) ==
  LET n == Len(x.s)  at == (IF p.dim < 0 THEN p.dim + n ELSE p.dim) + 1
      outer == IF "outer_value" \in DOMAIN p THEN <<1, p.outer_value>> ELSE <<0, 0>>
  IN IF p.type \notin 0 .. 3 \/ n < 2 \/ at < 1 \/ at >= n \/ Len(size.d) # 2 \/ m.s # <<3, 3>> THEN Err
     ELSE IF outer[1] = 0 /\ (x.s[at] = 0 \/ x.s[at + 1] = 0) THEN Err
     ELSE IF p.type = 1 /\ Q(p) # 4 THEN Free
     ELSE IF ~Flt(x.t) /\ outer[1] = 1 /\ ~Signed(x.t) /\ outer[2] < 0 THEN Free
     ELSE AffinePick(x, at, size.d[1], size.d[2], m.d, Q(p), p.type, outer, sc)
\* by a scale (over 4): the same as an affine map by its inverse, 0 outside
SampleOp(p, x, sc) ==
  LET n == Len(x.s)  dim == Get(p, "dim", -2)  at == (IF dim < 0 THEN dim + n ELSE dim) + 1
      num == p.scale[1]  den == p.scale[2]  type == Get(p, "type", 2)
  IN IF at < 1 \/ at >= n THEN Err
     ELSE LET H == (x.s[at] * num) \div den  W == (x.s[at + 1] * num) \div den IN
          IF H = 0 \/ W = 0 \/ (type = 1 /\ num # 4) THEN Free
          ELSE AffinePick(x, at, H, W, <<den, 0, 0, 0, den, 0>>, num, type, <<1, 0>>, sc * num)
SampleV2(p, x, scale, q, sc) ==
  LET n == Len(x.s) IN
  IF Len(scale.d) # n THEN Err
  ELSE LET z == [k \in 1 .. n |-> (x.s[k] * scale.d[k]) \div q]
           chg == {k \in 1 .. n : z[k] # x.s[k]}
           fits(h) == \A k \in chg : k \in {h, h + 1}
           hs == {h \in 1 .. n - 1 : fits(h)}
       IN IF \E k \in 1 .. n : z[k] = 0 THEN Err
          ELSE IF hs = {} THEN Err
          ELSE LET h == CHOOSE h \in hs : \A g \in hs : h <= g IN Resized(x, h, z[h], z[h + 1], Get(p, "type", 3), q, sc)
-----------------------------------------------------------------------------
\* before and after that make an output of m windows of k at stride s over n elements; t, b are given
Total(m, k, s, n) == (m - 1) * s + k - n
AsValid(m, k, s, n, t) == <<t, Total(m, k, s, n) - t>>
\* the rest is divided, the odd one behind (or before)
AsSame(m, k, s, n, t, b, lower) == LET e == Total(m, k, s, n) - t - b  half == e \div 2
                                   IN IF e < 0 THEN <<>> ELSE IF lower THEN <<t + (e - half), b + half>> ELSE <<t + half, b + (e - half)>>
Pads(p, method, h, w, k, s, Axis2(_, _, _, _, _, _)) ==
  LET nhwc == Get(p, "format", "NCHW") = "NHWC"
      st == Get(p, "padding", <<0, 0, 0, 0, 0, 0, 0, 0>>)
      q == IF nhwc THEN <<st[3], st[4], st[5], st[6]>> ELSE P8(st)
      a == Axis2(method, h, k[1], s[1], q[1], q[2])
      b == Axis2(method, w, k[2], s[2], q[3], q[4])
  IN IF a = <<>> \/ b = <<>> THEN Free
     ELSE One(T("int32", <<4, 2>>, IF nhwc THEN <<0, 0, a[1], a[2], b[1], b[2], 0, 0>> ELSE <<0, 0, 0, 0, a[1], a[2], b[1], b[2]>>))
HW(p, s) == IF Get(p, "format", "NCHW") = "NHWC" THEN <<s[2], s[3]>> ELSE <<s[3], s[4]>>
TfAxis(method, n, k, s, t, b) == IF method = "SAME" THEN AsSame(CeilDiv(n + t + b, s), k, s, n, t, b, FALSE)
                                 ELSE IF n + t + b < k THEN <<>> ELSE AsValid(CeilDiv(n + t + b - k + 1, s), k, s, n, t)
MxAxis(method, n, k, s, t, b) == IF method = "no" THEN <<t, b>> ELSE IF n + t + b < k THEN <<>> ELSE AsValid((n + t + b - k) \div s + 1, k, s, n, t)
OnnxAxis(method, n, k, s, t, b) ==
  CASE method = "NOTSET" -> (IF n + t + b < k THEN <<>> ELSE AsValid((n + t + b - k) \div s + 1, k, s, n, t))
    [] method = "VALID" -> (IF n + t + b < k THEN <<>> ELSE AsValid(CeilDiv(n + t + b - k + 1, s), k, s, n, t))
    [] OTHER -> AsSame(CeilDiv(n + t + b, s), k, s, n, t, b, method = "SAME_LOWER")
\* a last window that would start behind the padded input is dropped
Started(m, s, n) == IF (m - 1) * s >= n THEN m - 1 ELSE m
DragonAxis(method, n, k, s, t, b) ==
  CASE method = "ceil" -> (IF n + t + b < k THEN <<>> ELSE AsValid(Started(CeilDiv(n + t + b - k, s) + 1, s, n + t + b), k, s, n, t))
    [] method = "floor" -> (IF n + t + b < k THEN <<>> ELSE AsValid(Started((n + t + b - k) \div s + 1, s, n + t + b), k, s, n, t))
    [] OTHER -> AsSame(CeilDiv(n, s), k, s, n, 0, 0, method # "SAME_UPPER")
PadOp(op, p, x) ==
  LET hw == HW(p, x[1].s) IN
  CASE op = "_tf_conv2d_padding" ->
         (IF p.padding_method \notin {"SAME", "VALID"} THEN Err
          ELSE LET k == HW(p, x[2].s)  d == HW(p, p.dilation)
               IN Pads(p, p.padding_method, hw[1], hw[2], <<Reach(k[1], d[1]), Reach(k[2], d[2])>>, HW(p, p.stride), TfAxis))
    [] op = "_tf_pooling2d_padding" ->
         (IF p.padding_method \notin {"SAME", "VALID"} THEN Err ELSE Pads(p, p.padding_method, hw[1], hw[2], HW(p, x[2].d), HW(p, x[3].d), TfAxis))
    [] op = "_mx_pooling2d_padding" -> Pads(p, IF p.valid # 0 THEN "yes" ELSE "no", hw[1], hw[2], HW(p, x[2].d), HW(p, x[3].d), MxAxis)
    [] op = "_onnx_pooling2d_padding" ->
         (IF Get(p, "auto_pad", "NOTSET") \notin {"NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER"} THEN Err
          ELSE Pads(p, Get(p, "auto_pad", "NOTSET"), hw[1], hw[2], HW(p, x[2].d), HW(p, x[3].d), OnnxAxis))
    [] op = "_dragon_pooling2d_padding" ->
         (LET a == Get(p, "auto_pad", "VALID") IN
          IF a \notin {"NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER", "SAME"} THEN Err
          ELSE Pads(p, IF a \in {"NOTSET", "VALID"} THEN (IF Get(p, "ceil", 1) = 1 THEN "ceil" ELSE "floor") ELSE a, hw[1], hw[2], HW(p, x[2].d), HW(p, x[3].d), DragonAxis))
-----------------------------------------------------------------------------
ConvOps == {"conv2d", "depthwise_conv2d", "transpose_conv2d"}
ConvOps2 == {"conv2d_v2", "depthwise_conv2d_v2"}
PadOps == {"_tf_conv2d_padding", "_tf_pooling2d_padding", "_mx_pooling2d_padding", "_onnx_pooling2d_padding", "_dragon_pooling2d_padding"}
WindowOps == ConvOps \cup ConvOps2 \cup PadOps \cup {"conv2d_winograd", "conv2d_winograd_v2", "pooling2d", "pooling2d_v2", "global_pooling2d", "gemm", "inner_prod", "matmul",
              "_resize2d", "resize_nearest_neighbor", "sample2d", "sample2d_v2", "affine_sample2d"}
WindowSem(op, p, x, sc) ==
  CASE op \in ConvOps -> ConvOp(op, p, x[1], x[2], p.padding)
    [] op \in ConvOps2 -> (IF x[2].s # <<4, 2>> THEN Err ELSE ConvOp(op, p, x[1], x[3], x[2].d))
    [] op = "conv2d_winograd" -> Winograd(p, x[1], x[2], p.padding, sc)
    [] op = "conv2d_winograd_v2" -> Winograd(p, x[1], x[3], x[2].d, sc)
    [] op = "pooling2d" -> PoolOp(p, x[1], p.padding, p.ksize, p.stride, sc)
    [] op = "pooling2d_v2" -> PoolOp(p @@ [type |-> 0], x[1], x[2].d, x[3].d, x[4].d, sc)
    [] op = "global_pooling2d" -> Global(p, x[1], sc)
    [] op = "gemm" -> Gemm(p, x[1], x[2], x[3], sc)
    [] op = "inner_prod" -> InnerProd(p, x[1], x[2])
    [] op = "matmul" -> MatMul(x[1], x[2])
    [] op = "_resize2d" -> ResizeOp(p, x[1], x[2], 1, sc)
    [] op = "resize_nearest_neighbor" -> NearestNeighbor(p, x[1], x[2], sc)
    [] op = "sample2d" -> SampleOp(p, x[1], sc)
    [] op = "sample2d_v2" -> SampleV2(p, x[1], x[2], Q(p), sc)
    [] op = "affine_sample2d" -> AffineOp(p, x[1], x[2], x[3], sc)
    [] op \in PadOps -> PadOp(op, p, x)
WindowTol(op) == CASE op \in {"conv2d_winograd", "conv2d_winograd_v2", "pooling2d", "pooling2d_v2", "global_pooling2d"} -> 2
                   [] op \in {"_resize2d", "sample2d", "affine_sample2d"} -> 2
                   [] OTHER -> 0
\* results of integer type that were rounded
WindowITol(op, p) == IF op \in {"_resize2d", "affine_sample2d", "sample2d"} /\ Get(p, "type", 0) \in {0, 1} THEN 1 ELSE 0
=============================================================================
