----------------------------- MODULE TensorLib -----------------------------
(* Tensors as values: [t |-> element type, s |-> shape, d |-> elements in    *)
(* row-major order].  Coordinates are sequences of 0-based positions.        *)
EXTENDS Integers, Sequences, TLC
Rng(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
Abs(x) == IF x < 0 THEN -x ELSE x
\* division rounding toward zero
TDiv(a, b) == IF (a >= 0) = (b > 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
Reverse(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE FlatAll(_)
FlatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatAll(Tail(ss))
Strides(s) == TLCEval([k \in 1 .. Len(s) |-> Prod(SubSeq(s, k + 1, Len(s)))])
Coord(i, s, st) == [k \in 1 .. Len(s) |-> (i \div st[k]) % s[k]]
RECURSIVE Dot(_, _, _)
Dot(c, st, k) == IF k = 0 THEN 0 ELSE c[k] * st[k] + Dot(c, st, k - 1)
\* the element of t at coordinate c
At(t, c) == t.d[Dot(c, Strides(t.s), Len(c)) + 1]
AtS(t, st, c) == t.d[Dot(c, st, Len(c)) + 1]
\* the tensor of shape s whose element at c is F(c)
Gen(t, s, F(_)) == LET st == Strides(s) IN
  [t |-> t, s |-> s, d |-> TLCEval([i \in 1 .. Prod(s) |-> F(Coord(i - 1, s, st))])]
\* the same by flat 0-based index
GenFlat(t, s, F(_)) == [t |-> t, s |-> s, d |-> TLCEval([i \in 1 .. Prod(s) |-> F(i - 1)])]
MapT(x, F(_)) == [x EXCEPT !.d = TLCEval([i \in 1 .. Len(x.d) |-> F(x.d[i])])]
WellFormed(x) == /\ \A i \in 1 .. Len(x.s) : x.s[i] >= 0
                 /\ Len(x.d) = Prod(x.s)
Ones(n) == [i \in 1 .. n |-> 1]
\* shape s seen as one of rank n, ones in front
Lift(s, n) == Ones(n - Len(s)) \o s
BroadcastOk(a, b) == LET n == MaxOf(Len(a), Len(b))  x == Lift(a, n)  y == Lift(b, n)
                     IN \A i \in 1 .. n : x[i] = y[i] \/ x[i] = 1 \/ y[i] = 1
BroadcastShape(a, b) == LET n == MaxOf(Len(a), Len(b))  x == Lift(a, n)  y == Lift(b, n)
                        IN [i \in 1 .. n |-> IF x[i] = 1 THEN y[i] ELSE x[i]]
\* element of x for coordinate c of a tensor it is broadcast to
BAt(x, c) == LET k == Len(c) - Len(x.s)
             IN At(x, [i \in 1 .. Len(x.s) |-> IF x.s[i] = 1 THEN 0 ELSE c[i + k]])
Binary(t, x, y, F(_, _)) == LET s == BroadcastShape(x.s, y.s)
                            IN Gen(t, s, LAMBDA c : F(BAt(x, c), BAt(y, c)))
\* axis a of rank n, counted from the end when negative (1-based result)
Axis(a, n) == (IF a < 0 THEN a + n ELSE a) + 1
AxisOk(a, n) == a >= -n /\ a < n
Put1(s, k, v) == [s EXCEPT ![k] = v]
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
InsertAt1(s, k, v) == SubSeq(s, 1, k - 1) \o <<v>> \o SubSeq(s, k, Len(s))
=============================================================================
