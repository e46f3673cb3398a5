------------------------------ MODULE Rewrite -------------------------------
(* Loading a network with options: whatever rewriting they ask for, what is  *)
(* loaded computes the network as it was written, and the network stays.     *)
(* A network: g, nodes in order [k, op, p, ins, sc, t, v]; outs; ins.        *)
EXTENDS OpsSem
SE == INSTANCE SequencesExt
-----------------------------------------------------------------------------
\* text options: words between blanks, in order; a switch has words that put it on and words that put it off
Words(toks) == {toks[i] : i \in 1 .. Len(toks)}
Switch(toks, on, off, d) ==
  LET at == {i \in 1 .. Len(toks) : toks[i] \in on \cup off}
  IN IF at = {} THEN d ELSE toks[CHOOSE i \in at : \A j \in at : j <= i] \in on
Filters(toks) == Switch(toks, {"--filter", "-flt"}, {"--no-filter", "-no-flt"}, FALSE)
\* renaming of devices: the last word on a device counts; names are followed, at most once each
Mapped(maps, d) ==
  LET RECURSIVE Go(_, _)
      Go(x, seen) == IF x \in DOMAIN maps /\ x \notin seen THEN Go(maps[x], seen \cup {x}) ELSE x
  IN Go(d, {})
Renames(toks) ==
  LET F(f, i) == IF toks[i].m THEN [x \in DOMAIN f \cup {toks[i].a} |-> IF x = toks[i].a THEN toks[i].b ELSE f[x]] ELSE f
      b == [x \in {"", "cuda"} |-> IF x = "" THEN "cpu" ELSE "gpu"]
  IN SE!FoldLeft(F, b, [i \in 1 .. Len(toks) |-> i])
-----------------------------------------------------------------------------
\* constants near to zero are zero when asked for; those are told in multiples of 2^-30
Filtered(x, sc, on) == IF on /\ sc > 1 /\ x.t = "float32" THEN MapT(x, LAMBDA v : IF v < 128 /\ -v < 128 THEN 0 ELSE v) ELSE x
Given(net, in, i) == LET k == CHOOSE k \in 1 .. Len(net.ins) : net.ins[k] = i  t == net.g[i].t
                     IN IF t = "" THEN in[k] ELSE [in[k] EXCEPT !.t = t]
NodeVal(net, in, flt, vals, i) ==
  LET n == net.g[i] IN
  IF n.k = "param" THEN (IF \E k \in 1 .. Len(net.ins) : net.ins[k] = i THEN [k |-> "val", y |-> <<Given(net, in, i)>>] ELSE [k |-> "unused"])
  ELSE IF n.k = "const" THEN [k |-> "val", y |-> <<Filtered(n.v, n.sc, flt)>>]
  ELSE IF \E j \in 1 .. Len(n.ins) : vals[n.ins[j]].k # "val" THEN [k |-> "unused"]
  ELSE Sem(n.op, n.p, [j \in 1 .. Len(n.ins) |-> vals[n.ins[j]].y[1]], n.sc)
Values(net, in, flt) == SE!FoldLeft(LAMBDA vs, i : Append(vs, TLCEval(NodeVal(net, in, flt, vs, i))), <<>>, [i \in 1 .. Len(net.g) |-> i])
MaxAbs(vals) == LET m(i) == IF vals[i].k = "val" THEN SE!FoldLeft(LAMBDA a, v : MaxOf(a, Abs(v)), 0, vals[i].y[1].d) ELSE 0
                IN SE!FoldLeft(LAMBDA a, i : MaxOf(a, m(i)), 0, [i \in 1 .. Len(vals) |-> i])
\* y is the value r, exactly unless it is a fraction or was computed otherwise
Agree(r, y, sc, loose, most) ==
  r.k = "val" => /\ y.t = r.y[1].t /\ y.s = r.y[1].s /\ Len(y.d) = Len(r.y[1].d)
                 /\ LET tol(v) == (IF sc > 1 /\ sc < 100000 THEN 2 + (Abs(v) \div 10000) ELSE 0) + (IF loose /\ sc < 100000 THEN (2 + (most \div 20000)) * sc ELSE 0)
                    IN \A i \in 1 .. Len(y.d) : Abs(y.d[i] - r.y[1].d[i]) <= tol(r.y[1].d[i])
Name(i) == "n" \o ToString(i)
Names(s) == [i \in 1 .. Len(s) |-> Name(s[i])]
=============================================================================
