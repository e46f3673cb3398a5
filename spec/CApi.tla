-------------------------------- MODULE CApi --------------------------------
(* The C interface.  Handles are positive integers, 0 is the null handle.    *)
(* A tensor handle is a sequence of fields [t, s, m, o]: element type, shape,*)
(* the block of memory it looks at, and where in it it begins.  A program    *)
(* computes, for each output j, input src[j] plus the values k of the        *)
(* plug-ins on the way.  What a call is to give is told by Expect, what      *)
(* becomes of the state by After.                                            *)
EXTENDS TensorLib
SE == INSTANCE SequencesExt

Types == {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "char8"}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Foggy == [t |-> "?", s |-> <<>>, d |-> <<>>]           \* a value nothing is said about
Unset == [t |-> "unset", s |-> <<>>, d |-> <<>>]
Void == [t |-> "void", s |-> <<>>, d |-> <<>>]

------------------------------------------------------------------------------
(* tensors *)
Read(mem, f) == IF f.m = 0 \/ f.t = "void" THEN Foggy ELSE [t |-> f.t, s |-> f.s, d |-> SubSeq(mem[f.m], f.o + 1, f.o + Prod(f.s))]
Fields(mem, ob) == [i \in 1 .. Len(ob.f) |-> Read(mem, ob.f[i])]
Like(v, w) == v.t = "?" \/ v = w
AllLike(vs, ws) == Len(vs) = Len(ws) /\ \A i \in 1 .. Len(vs) : Like(vs[i], ws[i])
\* the shape a tensor of shape s gets when asked to be a; <<-1>> when that cannot be
Reshape(s, a) == LET neg == {i \in 1 .. Len(a) : a[i] < 0}
                     rest == Prod([i \in 1 .. Len(a) |-> IF a[i] < 0 THEN 1 ELSE a[i]])
                     n == Prod(s)
                 IN IF neg = {} THEN (IF rest = n THEN a ELSE <<-1>>)
                    ELSE IF Len(SelectSeq(a, LAMBDA x : x < 0)) > 1 \/ rest = 0 THEN <<-1>>
                    ELSE IF n % rest # 0 THEN <<-1>>
                    ELSE [i \in 1 .. Len(a) |-> IF a[i] < 0 THEN n \div rest ELSE a[i]]
------------------------------------------------------------------------------
(* the plug-in: what its callbacks do at present *)
Fails(m) == m \in {"null", "say", "throw", "throw2", "std", "int", "inner0"}
Throws(m) == m \in {"throw", "throw2", "std", "int"}
Speaks(m) == m \in {"say", "throw", "throw2", "std"}   \* its words are to be heard
\* making the operators of a network
InitFails(pm, n) == \/ (n.plain /\ Throws(pm.init)) \/ (n.ex /\ Fails(pm.init))
MakeFails(pm, n) == (n.plain \/ n.ex) /\ (Fails(pm.make) \/ InitFails(pm, n))
MakeSpeaks(pm, n) == IF Fails(pm.make) THEN Speaks(pm.make) ELSE Speaks(pm.init)
\* the shapes told by a sequence of numbers: count, then type, rank and sizes of each
RECURSIVE ParseFields(_, _, _)
ParseFields(q, k, acc) == IF k = 0 THEN <<acc, q>>
                          ELSE IF Len(q) < 2 THEN <<>>
                          ELSE IF q[2] < 0 \/ q[2] > Len(q) - 2 THEN <<>>
                          ELSE ParseFields(SubSeq(q, 3 + q[2], Len(q)), k - 1, Append(acc, [t |-> q[1], s |-> SubSeq(q, 3, 2 + q[2])]))
Parse(q) == IF Len(q) = 0 THEN <<>> ELSE IF q[1] <= 0 \/ q[1] > Len(q) THEN <<>> ELSE ParseFields(Tail(q), q[1], <<>>)
------------------------------------------------------------------------------
(* programs: [net, k, filt]; nets are numbered, 0 is one nothing is said about *)
InCount(nets, p) == Len(nets[p.net].ins)
OutCount(nets, p) == Len(nets[p.net].src)
Outs(n) == IF Len(n.src) = 1 THEN <<"y1">> ELSE <<"y1", "y2">>
Where(q, x) == LET at == {i \in 1 .. Len(q) : q[i] = x} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
Plugs(n) == {x : x \in UNION {Rng(n.pl[j]) : j \in 1 .. Len(n.pl)}}
NoFilter == <<>>
Fresh(nets, net) == [net |-> net, k |-> IF net = 0 THEN <<>> ELSE [x \in Plugs(nets[net]) |-> 0], filt |-> IF net = 0 THEN <<>> ELSE [i \in 1 .. Len(nets[net].ins) |-> NoFilter]]
\* a filter is the sequence of its steps
FilterOk(steps, v) == Len(v.s) \in 2 .. 4
Filtered(steps, v) == IF v.t = "?" THEN Foggy
                      ELSE IF Head(steps) = "to_float"
                      THEN LET n == Len(SelectSeq(steps, LAMBDA x : x = "scale2")) IN
                           [t |-> "float32", s |-> CASE Len(v.s) = 2 -> <<1>> \o v.s \o <<1>> [] Len(v.s) = 3 -> <<1>> \o v.s [] OTHER -> v.s,
                            d |-> [i \in 1 .. Len(v.d) |-> v.d[i] * (2 ^ n)]]
                      ELSE Foggy
Given(p, ins) == [i \in 1 .. Len(ins) |-> IF p.filt[i] = NoFilter THEN ins[i] ELSE Filtered(p.filt[i], ins[i])]
Plus(v, ks) == IF v.t = "?" \/ \E i \in 1 .. Len(ks) : ks[i] < 0 THEN Foggy
               ELSE IF v.t \notin {"int32", "float32"} THEN v
               ELSE [v EXCEPT !.d = [i \in 1 .. Len(v.d) |-> v.d[i] + SumSeq(ks)]]
Output(n, p, ins, j) == Plus(Given(p, ins)[n.src[j]], [i \in 1 .. Len(n.pl[j]) |-> p.k[n.pl[j][i]]])
\* the value at plug-in x
Inner(n, p, ins, x) == LET j == CHOOSE j \in 1 .. Len(n.pl) : x \in Rng(n.pl[j])
                           i == Where(n.pl[j], x)
                       IN Plus(Given(p, ins)[n.src[j]], [q \in 1 .. i |-> p.k[n.pl[j][q]]])
=============================================================================
