------------------------------ MODULE OpsMove ------------------------------
(* Operators that move data.  Move(op, p, x) for parameters p and inputs x:  *)
(*   [k |-> "val", y |-> results]   these results                            *)
(*   [k |-> "err"]                  the call is to be rejected               *)
(*   [k |-> "any"]                  not specified                            *)
EXTENDS TensorLib, FiniteSets
Get(p, n, d) == IF n \in DOMAIN p THEN p[n] ELSE d
Val(y) == [k |-> "val", y |-> y]
One(t) == Val(<<t>>)
Err == [k |-> "err"]
Free == [k |-> "any"]
T(t, s, d) == [t |-> t, s |-> s, d |-> d]
Seq1(n, F(_)) == [i \in 1 .. n |-> F(i)]
\* indices i of 1 .. n with P(i), ascending
Filter(n, P(_)) == LET RECURSIVE F(_)
                       F(i) == IF i > n THEN <<>> ELSE (IF P(i) THEN <<i>> ELSE <<>>) \o F(i + 1)
                   IN F(1)
Ints(t) == t.d
BitAt(m, i) == (m \div (2 ^ (i - 1))) % 2 = 1
Permute(x, pm) == LET s == [k \in 1 .. Len(pm) |-> x.s[pm[k] + 1]]
                      st == Strides(x.s)
                      inv == [a \in 1 .. Len(pm) |-> CHOOSE k \in 1 .. Len(pm) : pm[k] = a - 1]
                  IN Gen(x.t, s, LAMBDA c : AtS(x, st, [a \in 1 .. Len(pm) |-> c[inv[a]]]))
\* positions b, b + e, b + 2e .. along every axis: n[k] of them
Pick(x, b, n, e) == LET st == Strides(x.s) IN
  Gen(x.t, n, LAMBDA c : AtS(x, st, [k \in 1 .. Len(c) |-> b[k] + c[k] * e[k]]))
\* window of shape z starting at b (may lie outside), v outside
Window(x, b, z, v) == LET st == Strides(x.s)
                          in(c) == \A k \in 1 .. Len(c) : b[k] + c[k] >= 0 /\ b[k] + c[k] < x.s[k]
                      IN Gen(x.t, z, LAMBDA c : IF in(c) THEN AtS(x, st, [k \in 1 .. Len(c) |-> b[k] + c[k]]) ELSE v)
\* part i .. i + n - 1 (0-based) along axis a (1-based)
Part(x, a, i, n) == Pick(x, [k \in 1 .. Len(x.s) |-> IF k = a THEN i ELSE 0], Put1(x.s, a, n), Ones(Len(x.s)))
Parts(x, a, ns) == [j \in 1 .. Len(ns) |-> Part(x, a, SumSeq(SubSeq(ns, 1, j - 1)), ns[j])]
Join(xs, a) == LET len == [j \in 1 .. Len(xs) |-> xs[j].s[a]]
                   off == [j \in 1 .. Len(xs) |-> SumSeq(SubSeq(len, 1, j - 1))]
                   st == [j \in 1 .. Len(xs) |-> Strides(xs[j].s)]
                   which(i) == CHOOSE j \in 1 .. Len(xs) : off[j] <= i /\ i < off[j] + len[j]
               IN Gen(xs[1].t, Put1(xs[1].s, a, SumSeq(len)),
                      LAMBDA c : LET j == which(c[a]) IN AtS(xs[j], st[j], Put1(c, a, c[a] - off[j])))
-----------------------------------------------------------------------------
ReshapeTo(x, z) ==
  LET n == Len(z)
      neg == {i \in 1 .. n : z[i] = -1}
      bad == \/ Cardinality(neg) > 1
             \/ \E i \in 1 .. n : z[i] < -1 \/ (z[i] = 0 /\ i > Len(x.s))
      f == [i \in 1 .. n |-> IF z[i] = 0 THEN x.s[i] ELSE z[i]]
      known == Prod([i \in 1 .. n |-> IF i \in neg THEN 1 ELSE f[i]])
      cnt == Len(x.d)
  IN IF bad THEN Err
     ELSE IF neg = {} THEN (IF known = cnt THEN One([x EXCEPT !.s = f]) ELSE Err)
     ELSE IF known = 0 \/ cnt % known # 0 THEN Err
     ELSE One([x EXCEPT !.s = [i \in 1 .. n |-> IF i \in neg THEN cnt \div known ELSE f[i]]])
FlattenFrom(x, dim) ==
  LET n == Len(x.s)  f == IF dim < 0 THEN n + dim ELSE dim IN
  IF f < 0 THEN Err
  ELSE IF f + 1 < n THEN One([x EXCEPT !.s = SubSeq(x.s, 1, f) \o <<Prod(SubSeq(x.s, f + 1, n))>>])
  ELSE One([x EXCEPT !.s = x.s \o Ones(f + 1 - n)])
Flatten2D(x, dim) ==
  LET n == Len(x.s)  f == IF dim < 0 THEN n + dim ELSE dim
      g == IF f < 0 THEN 0 ELSE IF f > n THEN n ELSE f
  IN One([x EXCEPT !.s = <<Prod(SubSeq(x.s, 1, g)), Prod(SubSeq(x.s, g + 1, n))>>])
SqueezeAt(x, p) ==
  LET n == Len(x.s)
      ax == IF "axes" \in DOMAIN p /\ Len(p.axes) > 0 THEN p.axes ELSE <<>>
      set == IF ax = <<>> THEN {k \in 1 .. n : x.s[k] = 1} ELSE {Axis(ax[i], n) : i \in 1 .. Len(ax)}
  IN IF \E i \in 1 .. Len(ax) : ~AxisOk(ax[i], n) THEN Err
     ELSE IF \E k \in set : x.s[k] # 1 THEN Err
     ELSE IF ax # <<>> /\ Cardinality(set) # Len(ax) THEN Free      \* the same axis twice
     ELSE LET keep == Filter(n, LAMBDA k : k \notin set)
          IN One([x EXCEPT !.s = [i \in 1 .. Len(keep) |-> x.s[keep[i]]]])
RECURSIVE UnsqueezeAt(_, _)
UnsqueezeAt(s, ax) ==
  IF ax = <<>> THEN [ok |-> TRUE, s |-> s]
  ELSE LET n == Len(s)  a == IF Head(ax) < 0 THEN Head(ax) + n + 1 ELSE Head(ax) IN
       IF a < 0 \/ a > n THEN [ok |-> FALSE, s |-> s] ELSE UnsqueezeAt(InsertAt1(s, a + 1, 1), Tail(ax))
TransposeBy(x, p) ==
  LET n == Len(x.s) IN
  IF "permute" \notin DOMAIN p
  THEN IF n < 2 THEN Free ELSE One(Permute(x, [k \in 1 .. n |-> IF k = n THEN n - 2 ELSE IF k = n - 1 THEN n - 1 ELSE k - 1]))
  ELSE LET m == Len(p.permute) IN
       IF {p.permute[k] : k \in 1 .. m} # 0 .. m - 1 \/ n > m THEN Err
       ELSE One(Permute([x EXCEPT !.s = Lift(x.s, m)], p.permute))
DimShuffle(x, p) ==
  LET n == Len(x.s)  a == p.dim + 1  sh == p.shuffle IN
  IF p.dim < 0 \/ p.dim >= n THEN Err
  ELSE IF \E i \in 1 .. Len(sh) : sh[i] < 0 \/ sh[i] >= x.s[a] THEN Err
  ELSE LET st == Strides(x.s) IN One(Gen(x.t, Put1(x.s, a, Len(sh)), LAMBDA c : AtS(x, st, Put1(c, a, sh[c[a] + 1]))))
Concat(xs, dim) ==
  LET n == Len(xs[1].s) IN
  IF ~AxisOk(dim, n) THEN (IF Len(xs) = 1 THEN Free ELSE Err)
  ELSE LET a == Axis(dim, n) IN
       IF \E j \in 1 .. Len(xs) : xs[j].t # xs[1].t \/ Len(xs[j].s) # n \/ (\E k \in 1 .. n : k # a /\ xs[j].s[k] # xs[1].s[k]) THEN Err
       ELSE One(Join(xs, a))
StackAt(xs, axis) ==
  LET n == Len(xs[1].s)  a == (IF axis < 0 THEN axis + n + 1 ELSE axis) + 1 IN
  IF a < 1 \/ a > n + 1 THEN Err
  ELSE IF \E j \in 1 .. Len(xs) : xs[j].t # xs[1].t \/ xs[j].s # xs[1].s THEN Err
  ELSE One(Join([j \in 1 .. Len(xs) |-> [xs[j] EXCEPT !.s = InsertAt1(@, a, 1)]], a))
Chunk(x, p) ==
  LET n == Len(x.s)  dim == Get(p, "dim", -2)  k == p.chunks IN
  IF k < 1 THEN Err ELSE IF ~AxisOk(dim, n) THEN Err
  ELSE LET a == Axis(dim, n)  d == x.s[a]  step == CeilDiv(d, k)  m == CeilDiv(d, step) IN
       IF d < k THEN Err
       ELSE Val(Parts(x, a, [j \in 1 .. m |-> IF j < m THEN step ELSE d - (m - 1) * step]))
Split(x, z, axis) ==
  LET n == Len(x.s) IN
  IF ~AxisOk(axis, n) THEN Err
  ELSE LET a == Axis(axis, n) IN
       IF SumSeq(z) # x.s[a] \/ (\E i \in 1 .. Len(z) : z[i] < 0) THEN Err
       ELSE Val(Parts(x, a, z))
SliceAt(x, b, z) ==
  LET n == Len(x.s) IN
  IF Len(b) # n \/ Len(z) # n THEN Err
  ELSE IF \E k \in 1 .. n : b[k] < 0 \/ b[k] >= x.s[k] \/ z[k] > x.s[k] - b[k] THEN Err
  ELSE IF \E k \in 1 .. n : z[k] = 0 THEN Free
  ELSE One(Pick(x, b, [k \in 1 .. n |-> IF z[k] < 0 THEN x.s[k] - b[k] ELSE z[k]], Ones(n)))
-----------------------------------------------------------------------------
\* begin:end:step of an axis of length d, as in Python: first position and number of positions
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
\* values beyond the length are clamped before adding, which cannot overflow
Bound(v, d, up) == LET w == IF v < 0 THEN (IF v < -d THEN -1 ELSE v + d) ELSE v
                   IN IF up THEN Clamp(w, 0, d) ELSE Clamp(w, -1, d - 1)
SliceOf(d, hb, b, he, e, st) ==
  LET up == st > 0
      i == IF hb THEN Bound(b, d, up) ELSE IF up THEN 0 ELSE d - 1
      j == IF he THEN Bound(e, d, up) ELSE IF up THEN d ELSE -1
  IN [b |-> i, n |-> IF up THEN (IF j > i THEN ((j - i - 1) \div st) + 1 ELSE 0)
                           ELSE (IF i > j THEN ((i - j - 1) \div (-st)) + 1 ELSE 0)]
SliceV3(x, st, en, ax, sp) ==
  LET n == Len(x.s)
      pos == [i \in 1 .. Len(ax) |-> Axis(ax[i], n)]
      which(k) == CHOOSE i \in 1 .. Len(ax) : pos[i] = k
      r == TLCEval([k \in 1 .. n |-> IF \E i \in 1 .. Len(ax) : pos[i] = k
                                     THEN SliceOf(x.s[k], TRUE, st[which(k)], TRUE, en[which(k)], sp[which(k)])
                                     ELSE [b |-> 0, n |-> x.s[k]]])
      e == [k \in 1 .. n |-> IF \E i \in 1 .. Len(ax) : pos[i] = k THEN sp[which(k)] ELSE 1]
  IN IF \E i \in 1 .. Len(ax) : ~AxisOk(ax[i], n) THEN Err
     ELSE IF \E i \in 1 .. Len(sp) : sp[i] = 0 THEN Err
     ELSE IF \E i \in 1 .. Len(ax) - 1 : pos[i] >= pos[i + 1] THEN Free
     ELSE One(Pick(x, [k \in 1 .. n |-> r[k].b], [k \in 1 .. n |-> r[k].n], e))
StridedSlice(x, p) ==
  LET b == p.begin  e == p.end  k == Len(b)  n == Len(x.s)
      st == IF "stride" \in DOMAIN p /\ p.stride # <<>> THEN p.stride ELSE Ones(k)
      bm == Get(p, "begin_mask", 0)  em == Get(p, "end_mask", 0)  sm == Get(p, "shrink_axis_mask", 0)
      nm == Get(p, "new_axis_mask", 0)  el == Get(p, "ellipsis_mask", 0)
      isE(i) == BitAt(el, i)  isN(i) == ~isE(i) /\ BitAt(nm, i)
      plain(i) == ~isE(i) /\ ~isN(i)
      used == Len(Filter(k, plain))                          \* source axes named one by one
      span == n - used                                       \* those under the ellipsis, or after the last position
      hasE == \E i \in 1 .. k : isE(i)
      \* one entry per axis of the source with new axes inserted
      RECURSIVE Go(_, _)
      Go(i, a) ==
        IF i > k THEN [j \in 1 .. n - a + 1 |-> [b |-> 0, n |-> x.s[a + j - 1], e |-> 1, src |-> a + j - 1, drop |-> FALSE]]
        ELSE IF isE(i) THEN [j \in 1 .. span |-> [b |-> 0, n |-> x.s[a + j - 1], e |-> 1, src |-> a + j - 1, drop |-> FALSE]] \o Go(i + 1, a + span)
        ELSE IF isN(i) THEN <<[b |-> 0, n |-> 1, e |-> 1, src |-> 0, drop |-> FALSE]>> \o Go(i + 1, a)
        ELSE LET r == SliceOf(x.s[a], ~BitAt(bm, i), b[i], ~BitAt(em, i), e[i], st[i])
             IN <<[b |-> r.b, n |-> r.n, e |-> st[i], src |-> a, drop |-> BitAt(sm, i)]>> \o Go(i + 1, a + 1)
  IN IF Len(e) # k \/ Len(st) # k \/ k = 0 THEN Err
     ELSE IF \E i \in 1 .. k : plain(i) /\ st[i] = 0 THEN Err
     ELSE IF span < 0 THEN Err
     ELSE LET q == TLCEval(Go(1, 1))
              full == [j \in 1 .. Len(q) |-> q[j].n]
              in == [x EXCEPT !.s = [j \in 1 .. Len(q) |-> IF q[j].src = 0 THEN 1 ELSE x.s[q[j].src]]]
              y == Pick(in, [j \in 1 .. Len(q) |-> q[j].b], full, [j \in 1 .. Len(q) |-> q[j].e])
              keep == Filter(Len(q), LAMBDA j : ~q[j].drop)
          IN IF \E j \in 1 .. Len(q) : q[j].drop /\ q[j].n # 1 THEN Err
             ELSE One([y EXCEPT !.s = [j \in 1 .. Len(keep) |-> full[keep[j]]]])
-----------------------------------------------------------------------------
Gather(x, ix, axis) ==
  LET n == Len(x.s) IN
  IF ~AxisOk(axis, n) THEN Err
  ELSE LET a == Axis(axis, n)  d == x.s[a]  m == Len(ix.s)  st == Strides(x.s)  si == Strides(ix.s)
           s == SubSeq(x.s, 1, a - 1) \o ix.s \o SubSeq(x.s, a + 1, n)
           nrm == [i \in 1 .. Len(ix.d) |-> IF ix.d[i] < 0 THEN ix.d[i] + d ELSE ix.d[i]]
       IN IF \E i \in 1 .. Len(nrm) : nrm[i] < 0 \/ nrm[i] >= d THEN Err
          ELSE One(Gen(x.t, s, LAMBDA c : AtS(x, st, SubSeq(c, 1, a - 1) \o <<nrm[Dot(SubSeq(c, a, a + m - 1), si, m) + 1]>> \o SubSeq(c, a + m, Len(c)))))
GatherND(x, ix) ==
  LET m == Len(ix.s)  k == ix.s[m]  n == Len(x.s) IN
  IF k > n THEN Err
  ELSE IF \E i \in 1 .. Len(ix.d) : ix.d[i] < 0 \/ ix.d[i] >= x.s[((i - 1) % k) + 1] THEN Err
  ELSE LET st == Strides(x.s)  si == Strides(ix.s)
           lead(c) == Dot(SubSeq(c, 1, m - 1), si, m - 1)
       IN One(Gen(x.t, SubSeq(ix.s, 1, m - 1) \o SubSeq(x.s, k + 1, n),
                  LAMBDA c : AtS(x, st, [j \in 1 .. k |-> ix.d[lead(c) + j]] \o SubSeq(c, m, Len(c)))))
GatherElements(x, ix, axis) ==
  LET n == Len(x.s) IN
  IF ~AxisOk(axis, n) THEN Err
  ELSE IF Len(ix.s) # n \/ (\E k \in 1 .. n : k # Axis(axis, n) /\ ix.s[k] # x.s[k]) THEN Err
  ELSE LET a == Axis(axis, n)  d == x.s[a]  st == Strides(x.s)
           nrm == [i \in 1 .. Len(ix.d) |-> IF ix.d[i] < 0 THEN ix.d[i] + d ELSE ix.d[i]]
           si == Strides(ix.s)
       IN IF \E i \in 1 .. Len(nrm) : nrm[i] < 0 \/ nrm[i] >= d THEN Err
          ELSE One(Gen(x.t, ix.s, LAMBDA c : AtS(x, st, Put1(c, a, nrm[Dot(c, si, n) + 1]))))
ScatterND(x, ix, u) ==
  LET n == Len(x.s) IN
  IF ix.t # "int32" \/ u.t # x.t THEN Err
  ELSE IF Len(ix.s) # 2 \/ ix.s[2] # 1 \/ u.s # <<ix.s[1]>> \o SubSeq(x.s, 2, n) THEN Err
  ELSE IF \E i \in 1 .. Len(ix.d) : ix.d[i] < 0 \/ ix.d[i] >= x.s[1] THEN Err
  ELSE LET st == Strides(x.s)
           rows(r) == {i \in 1 .. Len(ix.d) : ix.d[i] = r}
           last(r) == CHOOSE i \in rows(r) : \A j \in rows(r) : j <= i
           su == Strides(u.s)
       IN One(Gen(x.t, x.s, LAMBDA c : IF rows(c[1]) = {} THEN AtS(x, st, c) ELSE AtS(u, su, Put1(c, 1, last(c[1]) - 1))))
Tile(x, r) ==
  LET n == MaxOf(Len(x.s), Len(r))  s == Lift(x.s, n)  q == Lift(r, n)
      y == [x EXCEPT !.s = s]  st == Strides(s)
  IN IF \E k \in 1 .. Len(r) : r[k] < 0 THEN Err
     ELSE One(Gen(x.t, [k \in 1 .. n |-> s[k] * q[k]], LAMBDA c : AtS(y, st, [k \in 1 .. n |-> c[k] % s[k]])))
BroadcastTo(x, z) ==
  IF ~BroadcastOk(x.s, z) THEN Err ELSE One(Gen(x.t, BroadcastShape(x.s, z), LAMBDA c : BAt(x, c)))
Pad(x, q, v) ==
  LET n == Len(x.s) IN
  IF q.s # <<n, 2>> THEN Err
  ELSE LET lo == [k \in 1 .. n |-> q.d[2 * k - 1]]  hi == [k \in 1 .. n |-> q.d[2 * k]]
           z == [k \in 1 .. n |-> lo[k] + x.s[k] + hi[k]]
       IN IF \E k \in 1 .. n : z[k] <= 0 THEN Free ELSE One(Window(x, [k \in 1 .. n |-> -lo[k]], z, v))
CropND(x, z, p) ==
  LET n == Len(x.s)  full == [k \in 1 .. n |-> IF z[k] < 0 THEN x.s[k] ELSE z[k]] IN
  IF Len(z) # n THEN Err
  ELSE IF "shift" \in DOMAIN p
  THEN IF Len(p.shift) # n THEN Err
       ELSE One(Window(x, p.shift, full, 0))
  ELSE One(Window(x, [k \in 1 .. n |-> -TDiv(full[k] - x.s[k], 2)], full, 0))
CropTo(x, y, p) ==
  LET n == Len(x.s)  axis == Get(p, "axis", 2)  off == Get(p, "offset", <<>>) IN
  IF ~AxisOk(axis, n) \/ Len(y.s) # n THEN Err
  ELSE LET a == Axis(axis, n)  o == IF off = <<>> THEN [i \in 1 .. n - a + 1 |-> 0] ELSE off
           z == SubSeq(x.s, 1, a - 1) \o SubSeq(y.s, a, n)
           b == [k \in 1 .. n |-> IF k < a THEN 0 ELSE o[k - a + 1]]
       IN IF Len(o) # n - a + 1 THEN Err
          ELSE IF \E k \in 1 .. n : b[k] + z[k] > x.s[k] THEN Free
          ELSE One(Window(x, b, z, 0))
LimitTo(x, z) ==
  LET n == Len(x.s)  q == [k \in 1 .. n |-> IF k <= n - Len(z) THEN -1 ELSE z[k - (n - Len(z))]]
      r == [k \in 1 .. n |-> IF q[k] < 0 THEN x.s[k] ELSE MinOf(q[k], x.s[k])]
  IN IF Len(z) > n THEN Err
     ELSE One(Pick(x, [k \in 1 .. n |-> (x.s[k] - r[k]) \div 2], r, Ones(n)))
Divided(x, z, v) ==
  LET n == Len(x.s)  q == [k \in 1 .. n |-> IF k <= n - Len(z) THEN 1 ELSE z[k - (n - Len(z))]]
  IN IF Len(z) > n THEN Err
     ELSE IF \E k \in 1 .. n : q[k] <= 0 THEN Free
     ELSE One(Window(x, [k \in 1 .. n |-> 0], [k \in 1 .. n |-> CeilDiv(x.s[k], q[k]) * q[k]], v))
\* NCHW: the block position becomes the outer part of the batch
SpaceToBatch(x, p) ==
  LET q == p.padding  bh == p.block_shape[1]  bw == p.block_shape[2]
      H == x.s[3] + q[1] + q[2]  W == x.s[4] + q[3] + q[4]  N == x.s[1]
      y == Window(x, <<0, 0, -q[1], -q[3]>>, <<N, x.s[2], H, W>>, 0)
      st == Strides(y.s)
  IN IF H % bh # 0 \/ W % bw # 0 THEN Err
     ELSE One(Gen(x.t, <<N * bh * bw, x.s[2], H \div bh, W \div bw>>,
              LAMBDA c : LET blk == c[1] \div N IN AtS(y, st, <<c[1] % N, c[2], c[3] * bh + (blk \div bw), c[4] * bw + (blk % bw)>>)))
BatchToSpace(x, p) ==
  LET q == p.crop  bh == p.block_shape[1]  bw == p.block_shape[2]  N == x.s[1] \div (bh * bw)
      H == x.s[3] * bh - q[1] - q[2]  W == x.s[4] * bw - q[3] - q[4]  st == Strides(x.s)
  IN IF x.s[1] % (bh * bw) # 0 THEN Err
     ELSE IF H <= 0 \/ W <= 0 THEN Free
     ELSE One(Gen(x.t, <<N, x.s[2], H, W>>,
              LAMBDA c : LET h == c[3] + q[1]  w == c[4] + q[3]
                         IN AtS(x, st, <<((h % bh) * bw + (w % bw)) * N + c[1], c[2], h \div bh, w \div bw>>)))
-----------------------------------------------------------------------------
Expand(x, m, p) ==
  LET n == Len(x.s)  front == Get(p, "front", -1)  end == Get(p, "end", -1)  inv == Get(p, "inverse", 0) = 1
      need == m - n
      lim(v) == IF v < 0 THEN need ELSE MinOf(v, need)
      a == IF inv THEN lim(end) ELSE lim(front)               \* the preferred side
      b == MinOf(IF (IF inv THEN front ELSE end) < 0 THEN need ELSE (IF inv THEN front ELSE end), need - a)
  IN IF need < 0 THEN Err
     ELSE IF a + b < need THEN Err
     ELSE One([x EXCEPT !.s = IF inv THEN Ones(b) \o x.s \o Ones(a) ELSE Ones(a) \o x.s \o Ones(b)])
RangeOf(b, e, d) ==
  IF d = 0 THEN Err
  ELSE LET n == IF d > 0 THEN (IF e > b THEN CeilDiv(e - b, d) ELSE 0) ELSE (IF b > e THEN CeilDiv(b - e, -d) ELSE 0)
       IN One(T("int32", <<n>>, [i \in 1 .. n |-> b + (i - 1) * d]))
-----------------------------------------------------------------------------
Move(op, p, x) ==
  CASE op = "_reshape" -> ReshapeTo(x[1], p.shape)
    [] op = "_reshape_v2" -> ReshapeTo(x[1], x[2].d)
    [] op = "flatten" -> FlattenFrom(x[1], Get(p, "dim", 1))
    [] op = "flatten2d" -> Flatten2D(x[1], Get(p, "dim", 1))
    [] op = "squeeze" -> SqueezeAt(x[1], p)
    [] op = "unsqueeze" -> LET r == UnsqueezeAt(x[1].s, p.axes) IN IF r.ok THEN One([x[1] EXCEPT !.s = r.s]) ELSE Err
    [] op = "_transpose" -> TransposeBy(x[1], p)
    [] op = "_dimshuffle" -> DimShuffle(x[1], p)
    [] op = "concat" -> Concat(x, p.dim)
    [] op = "stack" -> StackAt(x, Get(p, "axis", 0))
    [] op = "chunk" -> Chunk(x[1], p)
    [] op = "split" -> Split(x[1], x[2].d, p.axis)
    [] op = "slice" -> SliceAt(x[1], p.begin, p.size)
    [] op = "slice_v2" -> SliceAt(x[1], x[2].d, x[3].d)
    [] op = "slice_v3" -> SliceV3(x[1], x[2].d, x[3].d, IF Len(x) > 3 THEN x[4].d ELSE [i \in 1 .. Len(x[2].d) |-> i - 1],
                                  IF Len(x) > 4 THEN x[5].d ELSE Ones(Len(x[2].d)))
    [] op = "strided_slice" -> StridedSlice(x[1], p)
    [] op = "gather" -> Gather(x[1], x[2], Get(p, "axis", 0))
    [] op = "gatherv2" -> GatherND(x[1], x[2])
    [] op = "gather_elements" -> GatherElements(x[1], x[2], Get(p, "axis", 0))
    [] op = "scatter_nd" -> ScatterND(x[1], x[2], x[3])
    [] op = "tile" -> Tile(x[1], p.repeats)
    [] op = "tile_v2" -> Tile(x[1], x[2].d)
    [] op = "broadcast" -> BroadcastTo(x[1], x[2].d)
    [] op = "pad" -> Pad(x[1], x[2], IF "padding_value" \in DOMAIN p THEN p.padding_value[1] ELSE 0)
    [] op = "crop_nd" -> CropND(x[1], x[2].d, p)
    [] op = "crop_to" -> CropTo(x[1], x[2], p)
    [] op = "_limit" -> LimitTo(x[1], p.shape)
    [] op = "divided" -> Divided(x[1], p.size, IF "padding_value" \in DOMAIN p THEN p.padding_value[1] ELSE 0)
    [] op = "space_to_batch4d" -> SpaceToBatch(x[1], p)
    [] op = "batch_to_space4d" -> BatchToSpace(x[1], p)
    [] op = "_cast" -> Free
    [] op = "to_float" -> One([x[1] EXCEPT !.t = "float32"])
    [] op = "_copy" -> One(x[1])
    [] op = "_shape" -> One(T("int32", <<Len(x[1].s)>>, x[1].s))
    [] op = "_dims" -> One(T("int32", <<>>, <<Len(x[1].s)>>))
    [] op = "_expand" -> Expand(x[1], x[2].d[1], p)
    [] op = "constant_of_shape" -> LET v == Get(p, "value", T("float32", <<1>>, <<0>>))
                                   IN One(GenFlat(v.t, x[1].d, LAMBDA i : v.d[1]))
    [] op = "range" -> RangeOf(x[1].d[1], x[2].d[1], x[3].d[1])
=============================================================================
