------------------------------ MODULE Session ------------------------------
(* What sessions (workbenches) denote.  A network is a sequence of nodes,    *)
(* inputs first; its meaning on given inputs is by evaluation of each node.  *)
(* A value is a tensor, or Err when an operator refuses its operands.        *)
EXTENDS TensorLib, FiniteSets, TLC
Err == [t |-> "err", s |-> <<>>, d |-> <<>>]
Void == [t |-> "void", s |-> <<>>, d |-> <<>>]
Bad(x) == x.t = "err"
None(x) == x.t \in {"err", "void"}          \* no value an operator could work on

Fn(id, p, xs) ==
  IF \E i \in 1 .. Len(xs) : None(xs[i]) \/ xs[i].t # xs[1].t \/ xs[i].s # xs[1].s THEN Err
  ELSE IF xs[1].t \notin {"int32", "float32"} THEN Err
  ELSE IF \E i \in 1 .. Len(xs), k \in 1 .. Len(xs[1].d) : xs[i].d[k] % 97 = 66 THEN Err
  ELSE [xs[1] EXCEPT !.d = TLCEval([k \in 1 .. Len(xs[1].d) |->
          (7 * id + p + SumSeq([j \in 1 .. Len(xs) |-> j * xs[j].d[k]])) % 997])]
\* common element type of the operands of an element-wise operator
Common(a, b) == IF a = b THEN a ELSE IF "float32" \in {a, b} THEN "float32" ELSE "int32"
Add(x, y) == IF None(x) \/ None(y) \/ ~BroadcastOk(x.s, y.s) THEN Err
             ELSE LET t == Common(x.t, y.t) IN Binary(t, x, y, LAMBDA a, b : IF t = "uint8" THEN (a + b) % 256 ELSE a + b)
Cat(xs) == IF \E i \in 1 .. Len(xs) : None(xs[i]) \/ xs[i].t # xs[1].t \/ Len(xs[i].s) # Len(xs[1].s) \/ Tail(xs[i].s) # Tail(xs[1].s) THEN Err
           ELSE [t |-> xs[1].t, s |-> <<SumSeq([i \in 1 .. Len(xs) |-> xs[i].s[1]])>> \o Tail(xs[1].s), d |-> FlatAll([i \in 1 .. Len(xs) |-> xs[i].d])]
\* 3x3 convolution of one channel, padding 1, with the kernel below
Kernel == << <<1, 2, 0>>, <<0, 1, 0>>, <<3, 0, 1>> >>
Conv(x) == IF None(x) \/ x.t # "float32" \/ Len(x.s) # 4 THEN Err ELSE IF x.s[2] # 1 THEN Err
           ELSE LET st == Strides(x.s)
                    P(c, i, j) == LET a == c[3] + i - 2  b == c[4] + j - 2
                                  IN IF a < 0 \/ b < 0 \/ a >= x.s[3] \/ b >= x.s[4] THEN 0 ELSE AtS(x, st, <<c[1], 0, a, b>>)
                IN Gen("float32", x.s, LAMBDA c : SumSeq(FlatAll([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> Kernel[i][j] * P(c, i, j)]])))
CastT(x, t) == IF t = "" THEN x ELSE IF None(x) THEN Err ELSE [x EXCEPT !.t = t]           \* all values are small integers
\* the filter "to float, times k" on an image; k = 0: no filter
Filtered(x, k) == IF k = 0 THEN x
                  ELSE IF None(x) \/ Len(x.s) < 2 \/ Len(x.s) > 4 THEN Err
                  ELSE LET s == CASE Len(x.s) = 2 -> <<1, x.s[1], x.s[2], 1>> [] Len(x.s) = 3 -> <<1>> \o x.s [] OTHER -> x.s
                       IN [t |-> "float32", s |-> s, d |-> TLCEval([i \in 1 .. Len(x.d) |-> k * x.d[i]])]
\* net = [g, outs, ins]; par: overridden operator parameters; flt: factor per input; returns the values of all nodes
Entered(net, flt, args) ==
  [i \in 1 .. Len(net.ins) |-> LET y == Filtered(args[i], flt[i]) IN IF Bad(y) THEN Err ELSE CastT(y, net.g[net.ins[i]].dt)]
Values(net, par, flt, args) ==
  LET en == TLCEval(Entered(net, flt, args))
      RECURSIVE Ev(_, _)
      Ev(n, v) ==
        IF n > Len(net.g) THEN v ELSE
        LET x == net.g[n]
            a == TLCEval([j \in 1 .. Len(x.ins) |-> v[x.ins[j]]])
            y == CASE x.k = "param" -> (IF n \in Rng(net.ins) THEN en[CHOOSE i \in 1 .. Len(net.ins) : net.ins[i] = n] ELSE Err)
                   [] x.k = "const" -> x.v
                   [] x.k = "fn" -> Fn(n, IF n \in DOMAIN par THEN par[n] ELSE x.f, a)
                   [] x.k = "add" -> Add(a[1], a[2])
                   [] x.k = "cat" -> Cat(a)
                   [] x.k = "conv" -> Conv(a[1])
                   [] x.k = "nest" -> (LET z == Fn(n + 1, 3, <<Fn(n, 2, <<a[1]>>)>>)
                                       IN IF Bad(a[1]) THEN Err ELSE IF Bad(z) /\ x.f = 1 THEN a[1] ELSE z)
        IN Ev(n + 1, Append(v, TLCEval(y)))
  IN Ev(1, <<>>)
RECURSIVE Reach(_, _)
Reach(g, S) == LET T == S \cup UNION {Rng(g[n].ins) : n \in S} IN IF T = S THEN S ELSE Reach(g, T)
\* outcome of a run: the outputs, or Err when an input is refused by its filter or type, or a needed operator refuses
Outcome(net, par, flt, args) ==
       LET en == Entered(net, flt, args)
           v == TLCEval(Values(net, par, flt, args))
           need == Reach(net.g, Rng(net.outs))
       IN IF \E i \in 1 .. Len(en) : Bad(en[i]) THEN Err
          ELSE IF \E n \in need : Bad(v[n]) THEN Err
          ELSE [t |-> "ok", v |-> v]
=============================================================================
