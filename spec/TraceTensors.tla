---------------------------- MODULE TraceTensors ----------------------------
EXTENDS Tensors, TraceUtil, TLC
VARIABLE l
tv == <<cells, han, l>>
E == Trace[l]
Bytes(t) == CASE t \in {"uint8"} -> 1 [] t = "int16" -> 2 [] t \in {"int32", "float32"} -> 4 [] t \in {"int64", "float64"} -> 8 [] OTHER -> 0
SameField(o, f, C) == /\ o.s = f.shape /\ o.t = f.type
                      /\ o.v = [i \in 1..Count(f) |-> C[f.cell][f.off + i]]
                      /\ o.b = (IF Count(f) = 0 THEN 0 ELSE f.cell)
                      /\ o.o = (IF Count(f) = 0 THEN 0 ELSE f.off)
ObsOne(o, fs, C) == /\ Len(o.f) = Len(fs)
                    /\ \A i \in 1..Len(fs) : SameField(o.f[i], fs[i], C)
                    /\ SameField(o.top, fs[1], C)
                    /\ o.n = Prod(fs[1].shape) /\ o.bytes = o.n * Bytes(fs[1].type) /\ o.dims = Len(fs[1].shape)
                    \* nobody cares how an empty tensor is held
                    /\ (\E i \in 1..Len(fs) : fs[i].weak /\ fs[i].ctr # Eternal) => o.weak
                    /\ o.weak => (\E i \in 1..Len(fs) : fs[i].weak \/ fs[i].ctr = Eternal)
                    /\ o.packed = (Len(fs) > 1)
                    /\ o.empty = (fs[1].type = "void" /\ fs[1].shape = <<>>)
Range(s) == {s[i] : i \in 1..Len(s)}
Obs == /\ {E.obs[i].h : i \in 1..Len(E.obs)} = DOMAIN han' /\ Len(E.obs) = Cardinality(DOMAIN han')
       /\ \A i \in 1..Len(E.obs) : ObsOne(E.obs[i], han'[E.obs[i].h], cells')
       /\ Range(E.live) = DOMAIN cells' /\ Len(E.live) = Cardinality(DOMAIN cells')
\* what else was dropped because it must not be used any more
Lost(h) == Range(E.gone) = (DOMAIN han \cup {h}) \ DOMAIN han'
Stay == UNCHANGED vars
Expect(ok, A) == IF ok THEN E.err = "" /\ A ELSE E.err = "ts" /\ Stay
Shown(f) == LET s == f.shape
            IN f.type \o ":[" \o
               (LET RECURSIVE J(_)
                    J(i) == IF i > Len(s) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o ToString(s[i]) \o J(i + 1)
                IN J(1)) \o "]"
ShownAll(fs) == "{" \o (LET RECURSIVE J(_)
                            J(i) == IF i > Len(fs) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o Shown(fs[i]) \o J(i + 1)
                        IN J(1)) \o "}"
Proto(f) == <<f.type, f.shape>>
Protos(fs) == [i \in 1..Len(fs) |-> Proto(fs[i])]
Ask == LET a == han[E.h] b == han[E.j] s == a[1].shape
           has == Len(E.s) = Len(s) /\ (IF Len(E.s) = Len(s) THEN \A i \in 1..Len(s) : E.s[i] < 0 \/ E.s[i] = s[i] ELSE TRUE)
       IN /\ E.has = has /\ E.has2 = has
          /\ E.eq = (Proto(a[1]) = Proto(b[1])) /\ E.ne = ~E.eq
          /\ E.EQ = (Protos(a) = Protos(b)) /\ E.NE = ~E.EQ
          /\ E.pQ = (Len(b) = 1 /\ Proto(a[1]) = Proto(b[1])) /\ E.Pq = (Len(a) = 1 /\ Proto(a[1]) = Proto(b[1]))
          /\ E.again /\ E.none = (s = <<>>) /\ E.text = ShownAll(a)
-----------------------------------------------------------------------------
(* coordinates and indices                                                   *)
Weight(s, i) == Prod(SubSeq(s, i, Len(s)))
RECURSIVE Flat(_, _)
Flat(s, c) == IF c = <<>> THEN 0 ELSE (Head(c) * Prod(Tail(s))) + Flat(Tail(s), Tail(c))
CoordOf(s, n) == [i \in 1..Len(s) |-> (n \div Prod(SubSeq(s, i + 1, Len(s)))) % s[i]]
Mod(a, n) == ((a % n) + n) % n
ShapeFacts == LET s == E.s N == Prod(s) tail == SubSeq(s, Len(s) - E.k + 1, Len(s)) tc == SubSeq(E.c, Len(s) - E.k + 1, Len(s))
                  here == Flat(s, E.c)
              IN /\ E.i1 = Flat(tail, tc) /\ E.i2 = E.i1 /\ E.i3 = E.i1
                 /\ E.ci = CoordOf(s, E.i) /\ E.count = N /\ E.pc = N
                 /\ E.w = [i \in 1..Len(s) |-> Weight(s, i)]
                 /\ E.next = CoordOf(s, Mod(here + 1, N)) /\ E.prev = CoordOf(s, Mod(here - 1, N))
                 /\ E.old = E.c /\ E.pn = E.next /\ E.zz = E.c /\ E.rw = [i \in 1..Len(s) |-> 0]
                 /\ \A j \in 1..Len(E.walk) : E.walk[j] = CoordOf(s, j - 1)
-----------------------------------------------------------------------------
(* building, converting: values are quarters; integers cut towards zero      *)
Whole(t) == t \in {"int8", "int16", "int32", "int64"}
Cut(x) == IF x >= 0 THEN x \div 4 ELSE -((-x) \div 4)
As(t, q) == IF Whole(t) THEN Cut(q) * 4 ELSE q
Given(t, v) == [i \in 1..Len(v) |-> IF Whole(t) THEN v[i] \div 4 ELSE v[i]]
Build == LET n == Prod(E.s)
             a == [i \in 1..n |-> As(E.ta, E.q[i])]
             b == [i \in 1..n |-> As(E.tb, a[i])]
         IN /\ E.a = [t |-> E.ta, s |-> E.s, d |-> Given(E.ta, a)]
            /\ E.b = [t |-> E.tb, s |-> E.s, d |-> Given(E.tb, b)]
            /\ E.own /\ E.ints = [i \in 1..n |-> Cut(b[i])] /\ E.longs = E.ints
            /\ E.floats = b /\ E.doubles = b
            /\ IF n = 0 THEN E.err = "ts" /\ E.err2 = "ts" ELSE E.err = "" /\ E.one = Cut(b[1]) /\ E.err2 = "" /\ E.onef = b[1]
            /\ E.back = E.text /\ E.tl = Len(E.text) /\ E.parsed = E.num /\ E.fl2 = E.flag /\ E.fl3 = E.flag
Known == [void |-> 0, int8 |-> 1, uint8 |-> 1, int16 |-> 2, uint16 |-> 2, int32 |-> 4, uint32 |-> 4, int64 |-> 8, uint64 |-> 8,
          float16 |-> 2, float32 |-> 4, float64 |-> 8, char8 |-> 1, char16 |-> 2, char32 |-> 4, bool |-> 1]
Types == /\ \A i, j \in 1..Len(E.all) : i # j => E.all[i].n # E.all[j].n /\ E.all[i].t # E.all[j].t
         /\ \A n \in DOMAIN Known : \E i \in 1..Len(E.all) : E.all[i].n = n /\ E.all[i].b = Known[n]
         /\ \A i \in 1..Len(E.ok) : E.ok[i]
Body ==
  CASE E.ev = "new" -> New(E.h, E.b, E.s, E.t, E.v) /\ Lost(E.h) /\ (IF Prod(E.s) = 0 THEN TRUE ELSE E.z = 1)
    [] E.ev = "void" -> Give(E.h, <<EmptyField>>) /\ Lost(E.h)
    [] E.ev = "copy" -> Copy(E.h, E.to) /\ Lost(E.to)
    [] E.ev = "move" -> Move(E.h, E.to) /\ Range(E.gone) = (DOMAIN han \cup {E.to}) \ (DOMAIN han' \cup {E.h})
    [] E.ev = "reshape" -> Expect(Len(E.s) <= 7 /\ Reshaped(Prod(han[E.h][1].shape), E.s) # <<-1>>, Reshape(E.h, E.to, E.s) /\ Lost(E.to))
    [] E.ev = "flatten" -> Flatten(E.h, E.to, E.d) /\ Lost(E.to)
    [] E.ev = "slice" -> LET e == IF E.one THEN E.b + 1 ELSE E.e IN Expect(SliceOk(han[E.h][1], E.b, e), Slice(E.h, E.to, E.b, e, E.one) /\ Lost(E.to))
    [] E.ev = "clone" -> /\ Clone(E.h, E.to, E.cells) /\ Lost(E.to)
                         /\ \A i \in 1..Len(han[E.h]) : IF Count(han[E.h][i]) = 0 THEN E.cells[i] = 0 ELSE E.cells[i] >= E.base
                         /\ \A i, j \in 1..Len(E.cells) : i # j /\ E.cells[i] # 0 => E.cells[i] # E.cells[j]
    [] E.ev = "pack" -> Pack(E.from, E.to) /\ Lost(E.to)
    [] E.ev = "field" -> Expect(FieldOk(E.h, E.k), Get(E.h, E.to, E.k) /\ Lost(E.to))
    [] E.ev = "put" -> Expect(FieldOk(E.h, E.k), Set(E.h, E.from, E.k) /\ Lost(E.h))
    [] E.ev = "refield" -> Refield(E.h, E.n) /\ Lost(E.h)
    [] E.ev = "view" -> View(E.h, E.to) /\ Lost(E.to)
    [] E.ev = "weak" -> Mode(E.h, E.to, TRUE) /\ Lost(E.to)
    [] E.ev = "strong" -> Mode(E.h, E.to, FALSE) /\ Lost(E.to)
    [] E.ev = "write" -> Write(E.h, E.f + 1, E.at, E.v) /\ E.gone = <<>>
    [] E.ev = "ask" -> (IF Ask THEN TRUE ELSE FALSE) /\ Stay
    [] E.ev = "crowd" -> Stay /\ E.gone = <<>>             \* copies made and dropped by many threads change nothing
    [] E.ev = "drop" -> Drop(E.h) /\ Range(E.gone) = DOMAIN han \ (DOMAIN han' \cup {E.h})
Pure == CASE E.ev = "shape" -> ShapeFacts [] E.ev = "build" -> Build
          [] E.ev = "types" -> Types
TraceInit == Init /\ l = 1
TraceNext ==
  \/ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1 /\ cells' = <<>> /\ han' = <<>>
  \/ l <= Len(Trace) /\ E.ev = "end" /\ l' = l + 1 /\ E.live = 0 /\ Stay
  \/ l <= Len(Trace) /\ E.ev \in {"shape", "build", "types"} /\ l' = l + 1 /\ (IF Pure THEN TRUE ELSE FALSE) /\ Stay
  \/ l <= Len(Trace) /\ E.ev \notin {"reset", "end", "shape", "build", "types"} /\ l' = l + 1 /\ Body /\ (IF Obs THEN TRUE ELSE FALSE)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
