------------------------------ MODULE OpsMath ------------------------------
(* Operators that compute.  Results that are no integers are told as         *)
(* multiples of 1/sc (rounded); inputs of floating point types are multiples *)
(* of 1/q (q is p._q, or 1), given by their numerators.                      *)
EXTENDS OpsMove
\* ---- numbers
Flt(t) == t \in {"float32", "float64"}
Signed(t) == t \in {"int8", "int16", "int32", "int64"}
Bits(t) == CASE t \in {"int8", "uint8"} -> 8 [] t \in {"int16", "uint16"} -> 16
             [] t \in {"int32", "uint32", "float32"} -> 32 [] t \in {"int64", "uint64", "float64"} -> 64
IntType(bits, sgn) == CASE bits = 8 -> (IF sgn THEN "int8" ELSE "uint8") [] bits = 16 -> (IF sgn THEN "int16" ELSE "uint16")
                        [] bits = 32 -> (IF sgn THEN "int32" ELSE "uint32") [] bits = 64 -> (IF sgn THEN "int64" ELSE "uint64")
\* the type two operands are brought to
Promote(a, b) == IF a = b THEN a
                 ELSE IF Flt(a) /\ Flt(b) THEN "float64"
                 ELSE IF Flt(a) \/ Flt(b) THEN (LET f == IF Flt(a) THEN a ELSE b  i == IF Flt(a) THEN b ELSE a
                                               IN IF f = "float64" \/ Bits(i) = 64 THEN "float64" ELSE "float32")
                 ELSE IF {a, b} \in {{"uint8", "uint16"}, {"uint8", "uint64"}} THEN IntType(MaxOf(Bits(a), Bits(b)), TRUE)   \* as the table of types has it
                 ELSE IntType(MaxOf(Bits(a), Bits(b)), Signed(a) \/ Signed(b))
\* what an integer type keeps of a value (32 and 64 bit values in these calls do not reach their limits)
Wrap(t, v) == CASE t = "uint8" -> v % 256 [] t = "uint16" -> v % 65536
                [] t = "int8" -> ((v + 128) % 256) - 128 [] t = "int16" -> ((v + 32768) % 65536) - 32768
                [] OTHER -> v
\* v = n / d (d > 0) as a multiple of 1 / sc, rounded
Scaled(n, d, sc) == (2 * n * sc + d) \div (2 * d)
\* n / d as it is recorded for an element of type t
Rec(t, n, d, sc) == IF Flt(t) THEN Scaled(n, d, sc) ELSE TDiv(n, d)
RECURSIVE IsqrtIn(_, _, _)
IsqrtIn(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m <= v \div m THEN IsqrtIn(v, m, hi) ELSE IsqrtIn(v, lo, m)
Isqrt(v) == IF v <= 0 THEN 0 ELSE IsqrtIn(v, 0, 46341)
RECURSIVE LongDiv(_, _, _)
\* floor(a * 100^k / b) for b * 100 < 2^31
LongDiv(a, b, k) == IF k = 0 THEN a \div b ELSE
  LET RECURSIVE F(_, _, _)
      F(qq, rem, i) == IF i = 0 THEN qq ELSE F(qq * 100 + (rem * 100) \div b, (rem * 100) % b, i - 1)
  IN F(a \div b, a % b, k)
Sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
\* n / sqrt(v) as a multiple of 1/10^k
OverRoot(n, v, k) == Sgn(n) * Isqrt(LongDiv(n * n, v, k))
\* multiples of 1/10^6 of functions at -8, -7.5 .. 8
SigmoidTab == <<335, 553, 911, 1501, 2473, 4070, 6693, 10987, 17986, 29312, 47426, 75858, 119203, 182426, 268941, 377541, 500000, 622459, 731059, 817574, 880797, 924142, 952574, 970688, 982014, 989013, 993307, 995930, 997527, 998499, 999089, 999447, 999665>>
TanhTab == <<-1000000, -999999, -999998, -999995, -999988, -999967, -999909, -999753, -999329, -998178, -995055, -986614, -964028, -905148, -761594, -462117, 0, 462117, 761594, 905148, 964028, 986614, 995055, 998178, 999329, 999753, 999909, 999967, 999988, 999995, 999998, 999999, 1000000>>
ErfTab == <<-1000000, -1000000, -1000000, -1000000, -1000000, -1000000, -1000000, -1000000, -1000000, -999999, -999978, -999593, -995322, -966105, -842701, -520500, 0, 520500, 842701, 966105, 995322, 999593, 999978, 999999, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000>>
\* multiples of 1/10^5
ExpTab == <<34, 55, 91, 150, 248, 409, 674, 1111, 1832, 3020, 4979, 8208, 13534, 22313, 36788, 60653, 100000, 164872, 271828, 448169, 738906, 1218249, 2008554, 3311545, 5459815, 9001713, 14841316, 24469193, 40342879, 66514163, 109663316, 180804241, 298095799>>
SoftplusTab == <<34, 55, 91, 150, 248, 408, 672, 1105, 1815, 2975, 4859, 7889, 12693, 20141, 31326, 47408, 69315, 97408, 131326, 170141, 212693, 257889, 304859, 352975, 401815, 451105, 500672, 550408, 600248, 650150, 700091, 750055, 800034>>
\* exp(-k) for k = 0 .. 16 in multiples of 1/10^5
NegExp(k) == IF k > 16 THEN 0 ELSE << 100000, 36788, 13534, 4979, 1832, 674, 248, 91, 34, 12, 5, 2, 1, 0, 0, 0, 0 >>[k + 1]
At2(tab, n, q) == tab[(2 * n) \div q + 17]
-----------------------------------------------------------------------------
Q(p) == Get(p, "_q", 1)
\* every element by itself; F gives the recorded result
Each(x, F(_)) == One(MapT(x, F))
OnlyFloat(x, r) == IF Flt(x.t) THEN r ELSE Err
\* the numerators of an input over the common denominator q when it is brought to type t
Over(x, q) == IF Flt(x.t) THEN 1 ELSE q
Big(t) == CASE Flt(t) -> 1999999999 [] t = "int8" -> 127 [] t = "uint8" -> 255 [] t = "int16" -> 32767 [] t = "uint16" -> 65535
            [] t = "int32" -> 2147483647 [] OTHER -> 2147483645
Low(t) == CASE Flt(t) -> -1999999999 [] t = "int8" -> -128 [] t = "int16" -> -32768
            [] t \in {"int32", "int64"} -> 2147483645 [] OTHER -> 0
BinaryFn(op, t, a, b, q, sc) ==          \* a and b: numerators over q (floats) or values (integers)
  LET d == IF Flt(t) THEN q ELSE 1 IN
  CASE op = "add" -> IF Flt(t) THEN Scaled(a + b, d, sc) ELSE Wrap(t, a + b)
    [] op = "sub" -> IF Flt(t) THEN Scaled(a - b, d, sc) ELSE Wrap(t, a - b)
    [] op = "mul" -> IF Flt(t) THEN Scaled(a * b, d * d, sc) ELSE Wrap(t, a * b)
    [] op = "maximum" -> IF Flt(t) THEN Scaled(MaxOf(a, b), d, sc) ELSE MaxOf(a, b)
    [] op = "div" -> IF b = 0 THEN (IF a > 0 THEN Big(t) ELSE Low(t))
                     ELSE IF Flt(t) THEN Scaled(Sgn(b) * a, Abs(b), sc) ELSE Wrap(t, TDiv(a, b))
    [] op = "mod" -> a - b * TDiv(a, b)
\* a negative integer seen as an unsigned one of 32 bits or more is not told by these records
Told(t, x) == Flt(t) \/ Signed(t) \/ Bits(t) < 32 \/ \A i \in 1 .. Len(x.d) : x.d[i] >= 0
BinaryOp(op, x, y, p, sc) ==
  LET t == Promote(x.t, y.t)  q == Q(p)
      f(z) == IF Flt(t) THEN MapT(z, LAMBDA v : v * Over(z, q)) ELSE MapT(z, LAMBDA v : Wrap(t, v))
      r == Binary(t, f(x), f(y), LAMBDA a, b : BinaryFn(op, t, a, b, q, sc))
  IN IF ~BroadcastOk(x.s, y.s) THEN Err
     ELSE IF op = "mod" /\ Flt(t) THEN Err
     ELSE IF ~Told(t, x) \/ ~Told(t, y) \/ ~Told(t, r) THEN Free
     ELSE One(r)
EqualOp(x, y, p) ==
  LET q == Q(p)  t == Promote(x.t, y.t)
      f(z) == IF Flt(t) THEN MapT(z, LAMBDA v : v * Over(z, q)) ELSE MapT(z, LAMBDA v : Wrap(t, v))
  IN IF ~BroadcastOk(x.s, y.s) THEN Err
     ELSE IF ~Told(t, x) \/ ~Told(t, y) THEN Free
     ELSE One(Binary("boolean", f(x), f(y), LAMBDA a, b : IF a = b THEN 1 ELSE 0))
WhereOp(c, x, y) ==
  IF x.t # y.t THEN Err
  ELSE IF ~BroadcastOk(x.s, y.s) THEN Err
  ELSE LET s == BroadcastShape(x.s, y.s) IN
       IF ~BroadcastOk(c.s, s) THEN Err
       ELSE One(Gen(x.t, BroadcastShape(c.s, s), LAMBDA k : IF BAt(c, k) # 0 THEN BAt(x, k) ELSE BAt(y, k)))
-----------------------------------------------------------------------------
Floor(n, q) == n \div q
Unary(op, x, p, sc) ==
  LET q == IF Flt(x.t) THEN Q(p) ELSE 1
      fl == Flt(x.t)
      Z == sc \div q                     \* multiples of 1/q are told exactly
      par(n, d) == Get(p, n, d)
  IN
  CASE op = "abs" -> Each(x, LAMBDA v : IF fl THEN Abs(v) * Z ELSE Wrap(x.t, Abs(v)))
    [] op = "square" -> Each(x, LAMBDA v : IF fl THEN Scaled(v * v, q * q, sc) ELSE Wrap(x.t, v * v))
    [] op = "relu" -> Each(x, LAMBDA v : IF v < 0 THEN 0 ELSE IF fl THEN v * Z ELSE v)
    [] op = "relu_max" -> LET m == par("max", <<0, 1>>)[1] IN Each(x, LAMBDA v : IF v < 0 THEN 0 ELSE IF fl THEN MinOf(v, m * q) * Z ELSE MinOf(v, m))
    [] op = "leaky_relu" -> LET a == par("scale", <<0, 1>>) IN
         IF fl THEN Each(x, LAMBDA v : IF v > 0 THEN v * Z ELSE Scaled(v * a[1], q * a[2], sc))
         ELSE IF a[1] % a[2] # 0 THEN Free ELSE Each(x, LAMBDA v : IF v > 0 THEN v ELSE Wrap(x.t, v * (a[1] \div a[2])))
    [] op = "hard_sigmoid" -> LET a == par("alpha", <<1, 5>>)  b == par("beta", <<1, 2>>) IN
         IF ~fl THEN Free
         ELSE Each(x, LAMBDA v : LET d == a[2] * q * b[2]  n == a[1] * v * b[2] + b[1] * a[2] * q
                                 IN IF n <= 0 THEN 0 ELSE IF n >= d THEN sc ELSE Scaled(n, d, sc))
    [] op = "ceil" -> Each(x, LAMBDA v : IF fl THEN -((-v) \div q) * sc ELSE v)
    [] op = "floor" -> Each(x, LAMBDA v : IF fl THEN (v \div q) * sc ELSE v)
    [] op = "sqrt" -> IF \E i \in 1 .. Len(x.d) : x.d[i] < 0 THEN Free
                      ELSE Each(x, LAMBDA v : IF fl THEN Isqrt(LongDiv(v, q, 3)) ELSE Isqrt(v))       \* sc = 1000
    [] op = "rsqrt" -> IF \E i \in 1 .. Len(x.d) : x.d[i] <= 0 THEN OnlyFloat(x, Free)
                       ELSE OnlyFloat(x, Each(x, LAMBDA v : Isqrt(LongDiv(q, v, 4))))                  \* sc = 10000
    [] op = "exp" -> OnlyFloat(x, Each(x, LAMBDA v : At2(ExpTab, v, q)))
    [] op = "sigmoid" -> IF fl THEN Each(x, LAMBDA v : At2(SigmoidTab, v, q)) ELSE Free
    [] op = "tanh" -> OnlyFloat(x, Each(x, LAMBDA v : At2(TanhTab, v, q)))
    [] op = "erf" -> OnlyFloat(x, Each(x, LAMBDA v : At2(ErfTab, v, q)))
    [] op = "softplus" -> IF fl THEN Each(x, LAMBDA v : At2(SoftplusTab, v, q)) ELSE Free
    [] op = "pow" -> LET y == p.y IN
         OnlyFloat(x, CASE y = <<0, 1>> -> Each(x, LAMBDA v : sc)
                        [] y = <<1, 1>> -> Each(x, LAMBDA v : v * Z)
                        [] y = <<2, 1>> -> Each(x, LAMBDA v : Scaled(v * v, q * q, sc))
                        [] y = <<3, 1>> -> Each(x, LAMBDA v : Scaled(v * v * v, q * q * q, sc))
                        [] y = <<-1, 1>> -> IF \E i \in 1 .. Len(x.d) : x.d[i] = 0 THEN Free ELSE Each(x, LAMBDA v : Scaled(Sgn(v) * q, Abs(v), sc))
                        [] OTHER -> Free)
UnaryOps == {"abs", "square", "relu", "relu_max", "leaky_relu", "hard_sigmoid", "ceil", "floor", "sqrt", "rsqrt", "exp", "sigmoid", "tanh", "erf", "softplus", "pow"}
-----------------------------------------------------------------------------
\* lines along axis a (1-based): element k of the line through c is LineAt(x, st, c, a, k)
LineAt(x, st, c, a, k) == AtS(x, st, Put1(c, a, k))
Line(x, c, a) == LET st == Strides(x.s) IN TLCEval([k \in 1 .. x.s[a] |-> LineAt(x, st, c, a, k - 1)])
SumLine(s) == SumSeq(s)
RECURSIVE MaxLine(_, _)
MaxLine(s, i) == IF i = Len(s) THEN s[i] ELSE MaxOf(s[i], MaxLine(s, i + 1))
FirstMax(s) == LET m == MaxLine(s, 1) IN (CHOOSE i \in 1 .. Len(s) : s[i] = m /\ \A j \in 1 .. i - 1 : s[j] # m) - 1
\* reduce axes lo .. hi (1-based)
Fold(x, lo, hi, keep, t, F(_)) ==
  LET n == Len(x.s)
      pre == SubSeq(x.s, 1, lo - 1)  mid == Prod(SubSeq(x.s, lo, hi))  post == SubSeq(x.s, hi + 1, n)
      w == Prod(post)
      line(i) == [k \in 1 .. mid |-> x.d[((i \div w) * mid + (k - 1)) * w + (i % w) + 1]]
      s == pre \o (IF keep THEN Ones(hi - lo + 1) ELSE <<>>) \o post
  IN GenFlat(t, s, LAMBDA i : F(TLCEval(line(i))))
Sc(x, p, n, sc) == IF Flt(x.t) THEN Scaled(n, Q(p), sc) ELSE Wrap(x.t, n)
Range1(t) == CASE t = "int8" -> <<-128, 127>> [] t = "uint8" -> <<0, 255>> [] OTHER -> <<-32768, 65535>>
MeanOp(x, p, sc) ==
  LET dims == p.dims  n == Len(x.s)
      ok == \A i \in 1 .. Len(dims) : AxisOk(dims[i], n)
      ax == [i \in 1 .. Len(dims) |-> Axis(dims[i], n)]
      keep == Get(p, "keep_dims", 1) = 1
  IN IF Len(dims) = 0 \/ ~ok THEN Err
     ELSE IF \E i \in 1 .. Len(ax) - 1 : ax[i + 1] # ax[i] + 1 THEN Err     \* neighbouring axes in order only
     ELSE LET cnt == Prod(SubSeq(x.s, ax[1], ax[Len(ax)])) IN
          IF ~Flt(x.t) /\ Bits(x.t) = 8 THEN Free                            \* the sum may not fit
          ELSE One(Fold(x, ax[1], ax[Len(ax)], keep, x.t,
                        LAMBDA s : IF Flt(x.t) THEN Scaled(SumLine(s), cnt * Q(p), sc) ELSE TDiv(SumLine(s), cnt)))
ReduceOp(op, x, p, sc) ==
  LET n == Len(x.s)  dim == IF op = "reduce_sum" THEN p.dims ELSE p.dim  a == Axis(dim, n)
      keep == Get(p, "keep_dims", 1) = 1
  IN IF ~AxisOk(dim, n) THEN Err
     ELSE CASE op = "reduce_sum" -> One(Fold(x, a, a, keep, x.t, LAMBDA s : Sc(x, p, SumLine(s), sc)))
            [] op = "max" -> One(Fold(x, a, a, keep, x.t, LAMBDA s : Sc(x, p, MaxLine(s, 1), sc)))
            [] op = "argmax" -> One(Fold(x, a, a, FALSE, "int32", LAMBDA s : FirstMax(s)))
TopK(x, p, sc) ==
  LET n == Len(x.s)  w == x.s[n]  k == MinOf(w, p.number)
      rank(i) == LET row == i \div w IN Cardinality({j \in row * w + 1 .. row * w + w : x.d[j] > x.d[i + 1]})
      at(i) == LET row == i \div k IN CHOOSE j \in row * w .. row * w + w - 1 : rank(j) = i % k     \* elements of a row differ
      s == Put1(x.s, n, k)
  IN IF p.number < 1 THEN Free
     ELSE Val(<<GenFlat(x.t, s, LAMBDA i : Sc(x, p, x.d[at(i) + 1], sc)), GenFlat("int32", s, LAMBDA i : at(i) % w)>>)
\* functions of the line through each position along an axis
Along(x, a, F(_, _)) ==
  LET w == Prod(SubSeq(x.s, a + 1, Len(x.s)))  m == x.s[a]
      base(i) == (i \div (w * m)) * w * m + (i % w)
      line(i) == [k \in 1 .. m |-> x.d[base(i) + (k - 1) * w + 1]]
  IN GenFlat(x.t, x.s, LAMBDA i : F(line(i), x.d[i + 1]))
Softmax(x, p, sc) ==
  LET n == Len(x.s) IN
  IF ~AxisOk(p.dim, n) THEN Err
  ELSE IF ~Flt(x.t) THEN Free
  ELSE LET one(s, v) == LET m == MaxLine(s, 1)
                            e(u) == NegExp(m - u)
                            tot == SumSeq([i \in 1 .. Len(s) |-> e(s[i])])
                        IN Scaled(e(v), tot, sc)
       IN One(Along(x, Axis(p.dim, n), one))
L2(x, p, sc) ==
  LET n == Len(x.s)  e == Get(p, "epsilon", <<0, 1>>)[1]
      one(s, v) == LET t == SumSeq([i \in 1 .. Len(s) |-> s[i] * s[i]]) + e IN IF v = 0 THEN 0 ELSE OverRoot(v, t, 3)
  IN IF ~AxisOk(Get(p, "dim", -1), n) THEN Err
     ELSE IF ~Flt(x.t) THEN Free
     ELSE IF e = 0 /\ "epsilon" \in DOMAIN p /\ (\E i \in 1 .. Len(x.d) : x.d[i] = 0) THEN Free
     ELSE One(Along(x, Axis(Get(p, "dim", -1), n), one))
\* per channel k along axis p.dim: F(value, k)
Channel(x, a, F(_, _)) == LET w == Prod(SubSeq(x.s, a + 1, Len(x.s)))
                          IN GenFlat(x.t, x.s, LAMBDA i : F(x.d[i + 1], ((i \div w) % x.s[a]) + 1))
ChannelOp(op, x, p, sc) ==               \* x: all inputs
  LET y == x[1]  n == Len(y.s)
      dim == IF "dim" \in DOMAIN p THEN p.dim ELSE IF "format" \in DOMAIN p THEN (IF p.format = "NCHW" THEN 1 ELSE 3) ELSE -1
      a == dim + 1
      f(v) == IF Flt(y.t) THEN v * sc ELSE Wrap(y.t, v)
      e == Get(p, "epsilon", <<0, 1>>)[1]
      norm(v, m, var, s) == IF v = m \/ s = 0 THEN 0 ELSE OverRoot((v - m) * s, var + e, 3)
  IN IF dim < 0 \/ dim >= n THEN Err
     ELSE IF \E i \in 2 .. Len(x) : x[i].s # <<y.s[a]>> \/ x[i].t # y.t THEN Err
     ELSE CASE op = "add_bias" -> One(Channel(y, a, LAMBDA v, k : f(v + x[2].d[k])))
            [] op = "batch_scale" -> One(Channel(y, a, LAMBDA v, k : f(v * x[2].d[k] + x[3].d[k])))
            [] op = "prelu" -> One(Channel(y, a, LAMBDA v, k : f(IF v > 0 THEN v ELSE v * x[2].d[k])))
            [] op = "batch_norm" -> IF ~Flt(y.t) THEN Free ELSE One(Channel(y, a, LAMBDA v, k : norm(v, x[2].d[k], x[3].d[k], 1)))
            [] op = "fused_batch_norm" -> IF ~Flt(y.t) THEN Free
                 ELSE One(Channel(y, a, LAMBDA v, k : norm(v, x[2].d[k], x[3].d[k], x[4].d[k]) + x[5].d[k] * sc))
\* every image brought to mean 0 and deviation 1 (times the images' number of elements all is an integer)
Whiten(x, F(_, _, _, _)) ==               \* F(value, sum, sum of squares, n)
  LET n == Len(x.d) \div x.s[1]
      img(b) == SubSeq(x.d, b * n + 1, b * n + n)
      s1 == TLCEval([b \in 1 .. x.s[1] |-> SumSeq(img(b - 1))])
      s2 == TLCEval([b \in 1 .. x.s[1] |-> LET v == img(b - 1) IN SumSeq([i \in 1 .. n |-> v[i] * v[i]])])
  IN IF ~Flt(x.t) THEN Err
     ELSE One(GenFlat(x.t, x.s, LAMBDA i : F(x.d[i + 1], s1[(i \div n) + 1], s2[(i \div n) + 1], n)))
NormImage(x) == Whiten(x, LAMBDA v, s1, s2, n : LET V == n * s2 - s1 * s1 IN IF V = 0 THEN 0 ELSE OverRoot(v * n - s1, V, 3))
PreWhiten(x) == Whiten(x, LAMBDA v, s1, s2, n : LET V == n * s2 - s1 * s1 IN OverRoot(v * n - s1, MaxOf(V, n), 3))
ForceColor(x, p, sc) ==
  LET n == Len(x.s)  c == x.s[n] IN
  IF c = 3 THEN One(MapT(x, LAMBDA v : Sc(x, p, v, sc)))
  ELSE IF c # 1 THEN Err
  ELSE One(GenFlat(x.t, Put1(x.s, n, 3), LAMBDA i : Sc(x, p, x.d[(i \div 3) + 1], sc)))
ForceGray(x, p, sc) ==
  LET n == Len(x.s)  c == x.s[n]
      w == IF "scale" \in DOMAIN p THEN p.scale ELSE <<114, 587, 299>>
      d == IF "scale" \in DOMAIN p THEN 4 ELSE 1000
      sum(i) == SumSeq([k \in 1 .. c |-> w[k] * x.d[i * c + k]])
  IN IF c = 1 THEN One(MapT(x, LAMBDA v : Sc(x, p, v, sc)))
     ELSE IF Len(w) # c THEN Err
     ELSE One(GenFlat(x.t, Put1(x.s, n, 1), LAMBDA i : IF Flt(x.t) THEN Scaled(sum(i), d, sc) ELSE TDiv(sum(i), d)))
\* scales are multiples of 1/5, of which no odd multiple of 1/2 results; one for each of the first axis' parts
Quantize(x, p) ==
  LET w == Len(x.d) \div x.s[1]
      clip(v) == IF v > 127 THEN 127 ELSE IF v < -128 THEN -128 ELSE v
  IN IF Len(p.quantize_scale) # x.s[1] THEN Err
     ELSE OnlyFloat(x, One(GenFlat("int8", x.s, LAMBDA i : clip(Scaled(x.d[i + 1] * p.quantize_scale[(i \div w) + 1], 5, 1)))))
-----------------------------------------------------------------------------
\* boxes by descending score, none overlapping one taken before by more than the threshold
Suppress(b, p, i, j) ==
  LET c(k) == b.d[k]
      wh == p.mode # "xyxy"
      box(m) == LET u == 4 * m IN [y1 |-> c(u + 1), x1 |-> c(u + 2), y2 |-> IF wh THEN c(u + 1) + c(u + 3) ELSE c(u + 3), x2 |-> IF wh THEN c(u + 2) + c(u + 4) ELSE c(u + 4)]
      std(z) == [y1 |-> MinOf(z.y1, z.y2), y2 |-> MaxOf(z.y1, z.y2), x1 |-> MinOf(z.x1, z.x2), x2 |-> MaxOf(z.x1, z.x2)]
      I == std(box(i))  J == std(box(j))
      area(z) == (z.y2 - z.y1) * (z.x2 - z.x1)
      inter == MaxOf(MinOf(I.y2, J.y2) - MaxOf(I.y1, J.y1), 0) * MaxOf(MinOf(I.x2, J.x2) - MaxOf(I.x1, J.x1), 0)
  IN area(I) > 0 /\ area(J) > 0 /\ inter * p.iou_threshold[2] > p.iou_threshold[1] * (area(I) + area(J) - inter)
NMS(b, s, p) ==
  LET n == Len(s.d)
      cand == {i \in 0 .. n - 1 : s.d[i + 1] > p.score_threshold[1]}
      RECURSIVE F(_, _)
      F(left, got) == IF left = {} \/ Len(got) = p.max_output_size THEN got
                      ELSE LET i == CHOOSE u \in left : \A v \in left : s.d[v + 1] <= s.d[u + 1]
                           IN F(left \ {i}, IF \E g \in Rng(got) : Suppress(b, p, i, g) THEN got ELSE Append(got, i))
      got == F(cand, <<>>)
  IN IF Len(b.s) # 2 \/ Len(s.s) # 1 THEN Err
     ELSE IF b.s[2] # 4 \/ s.s[1] # b.s[1] \/ b.t # "float32" \/ s.t # "float32" THEN Err
     ELSE One(GenFlat("int32", <<p.max_output_size>>, LAMBDA i : IF i < Len(got) THEN got[i + 1] ELSE -1))
-----------------------------------------------------------------------------
BinaryOps == {"add", "sub", "mul", "maximum", "div", "mod"}
MathOps == BinaryOps \cup UnaryOps \cup {"equal", "where", "reduce_sum", "max", "argmax", "reduce_mean", "topkv2", "softmax", "l2_norm", "add_bias",
  "batch_scale", "prelu", "batch_norm", "fused_batch_norm", "norm_image", "prewhiten", "force_color", "force_gray", "quantize", "non_max_suppression_v3"}
Math(op, p, x, sc) ==
  CASE op \in BinaryOps -> BinaryOp(op, x[1], x[2], p, sc)
    [] op \in UnaryOps -> Unary(op, x[1], p, sc)
    [] op = "equal" -> EqualOp(x[1], x[2], p)
    [] op = "where" -> WhereOp(x[1], x[2], x[3])
    [] op \in {"reduce_sum", "max", "argmax"} -> ReduceOp(op, x[1], p, sc)
    [] op = "reduce_mean" -> MeanOp(x[1], p, sc)
    [] op = "topkv2" -> TopK(x[1], p, sc)
    [] op = "softmax" -> Softmax(x[1], p, sc)
    [] op = "l2_norm" -> L2(x[1], p, sc)
    [] op \in {"add_bias", "batch_scale", "prelu", "batch_norm", "fused_batch_norm"} -> ChannelOp(op, x, p, sc)
    [] op = "norm_image" -> NormImage(x[1])
    [] op = "prewhiten" -> PreWhiten(x[1])
    [] op = "force_color" -> ForceColor(x[1], p, sc)
    [] op = "force_gray" -> ForceGray(x[1], p, sc)
    [] op = "quantize" -> Quantize(x[1], p)
    [] op = "non_max_suppression_v3" -> NMS(x[1], x[2], p)
\* how far a recorded result may be off, apart from a 10^5th of its size
Tol(op, x) == IF op \in {"exp", "softplus", "sigmoid", "tanh", "erf", "rsqrt", "fused_batch_norm", "softmax"} THEN 3 ELSE 1
=============================================================================
