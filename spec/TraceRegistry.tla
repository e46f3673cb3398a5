---------------------------- MODULE TraceRegistry ----------------------------
EXTENDS Registry, TraceUtil
VARIABLES l, bub        \* parameter collections of nodes: [p, op, nm, t, s]
tv == <<vars, l, bub>>
E == Trace[l]
Range(s) == {s[i] : i \in 1..Len(s)}
AsMap(ps) == [n \in {ps[i].n : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i].n = n].v]
Same == UNCHANGED vars
SameBub == UNCHANGED bub
ObsInst(o, x) == /\ AsMap(o.p) = x.p /\ Range(o.uns) = Lacking(x) /\ Len(o.uns) = Cardinality(Lacking(x)) /\ o.ok = MayStart(x)
                 /\ Range(o.req) = Required(x.impl) /\ Range(o.opt) = Names(x.impl) \ Required(x.impl)
                 /\ Range(o.all) = Names(x.impl) /\ Len(o.all) = Cardinality(Names(x.impl))
ObsBub(o, x) == AsMap(o.p) = x.p /\ o.op = x.op /\ o.nm = x.nm /\ o.t = x.t /\ o.s = x.s /\ o.same
Obs == /\ {E.ins[i].i : i \in 1..Len(E.ins)} = DOMAIN inst'
       /\ \A i \in 1..Len(E.ins) : ObsInst(E.ins[i], inst'[E.ins[i].i])
       /\ {E.bub[i].b : i \in 1..Len(E.bub)} = DOMAIN bub'
       /\ \A i \in 1..Len(E.bub) : ObsBub(E.bub[i], bub'[E.bub[i].b])
Key == IF E.kind \in {"op", "fp16", "conv"} THEN <<E.a, E.b>> ELSE <<E.a, "">>
Looked == IF E.kind \in {"op", "fp16"} /\ E.st = 0 THEN Loose(E.kind, E.a, E.b) ELSE Exact(E.kind, Key)
Keys(kind) == IF kind = "mem" THEN {<<d, mem[d]>> : d \in DOMAIN mem} ELSE DOMAIN reg[kind]
Expect(ok, A) == IF ok THEN E.err = "" /\ A ELSE E.err = "ts" /\ E.said /\ Same
Given == E.given
Create ==
  LET f == Found("op", E.a, E.b, E.strict)
      o == Fresh(f)
      bad == {k \in 1..Len(Given) : ~Accepts(o, Given[k].n)}
      o2 == SetAll(o, Given)
  IN IF f = 0 THEN E.err = (IF E.how = 1 THEN "none" ELSE "ts") /\ (E.how # 1 => E.key) /\ Same
     ELSE IF E.how # 2 THEN E.err = "" /\ E.got = f /\ New(E.i, o)
     ELSE IF bad # {} THEN E.err = "ts" /\ (\E k \in bad : Given[k].n \in Range(E.said)) /\ Same
     ELSE IF Lacking(o2) # {} THEN E.err = "ts" /\ Lacking(o2) \subseteq Range(E.said) /\ E.nameit /\ Same
     ELSE E.err = "" /\ E.got = f /\ New(E.i, o2)
B == bub[E.b]
SetBub(b) == bub' = Put(bub, E.b, b) /\ Same
NodeBody ==
  CASE E.ev = "bnew" -> bub' = Put(bub, E.b, [p |-> NoMap, op |-> "opn", nm |-> "first", t |-> 0, s |-> E.s]) /\ Same /\ E.s \in {<<>>, <<2, 3>>}
    [] E.ev = "bset" -> SetBub([B EXCEPT !.p = Put(@, E.p, E.v)])
    [] E.ev = "bget" -> /\ Same /\ SameBub /\ E.has = (E.p \in DOMAIN B.p)
                        /\ IF E.has THEN E.err = "" /\ E.v = B.p[E.p] ELSE E.err = "ts" /\ E.said
    [] E.ev = "bclr" -> IF E.p \in DOMAIN B.p THEN E.err = "" /\ SetBub([B EXCEPT !.p = Del(@, {E.p})]) ELSE E.err = "ts" /\ E.said /\ Same /\ SameBub
    [] E.ev = "bclrall" -> SetBub([B EXCEPT !.p = [n \in {n \in DOMAIN @ : Retained(n)} |-> @[n]]])
    [] E.ev = "bop" -> SetBub([B EXCEPT !.op = E.v])
    [] E.ev = "bname" -> SetBub([B EXCEPT !.nm = E.v])
    [] E.ev = "btype" -> SetBub([B EXCEPT !.t = E.v])
    [] E.ev = "bshape" -> SetBub([B EXCEPT !.s = E.v])
    [] E.ev = "bcopy" -> bub' = (IF E.mv THEN Del(Put(bub, E.to, B), {E.b}) ELSE Put(bub, E.to, B)) /\ Same
    [] E.ev = "bdrop" -> bub' = Del(bub, {E.b}) /\ Same
O == inst[E.i]
OpBody ==
  CASE E.ev = "reg" -> Register(E.kind, Key, E.impl)
    [] E.ev = "mem" -> MemOf(E.a, E.to)
    [] E.ev = "look" -> E.got = Looked /\ Same
    [] E.ev = "keys" -> Range(E.k) = Keys(E.kind) /\ Len(E.k) = Cardinality(Keys(E.kind)) /\ Same
    [] E.ev = "memq" -> (IF E.a \in DOMAIN mem THEN E.err = "" /\ E.got = mem[E.a] /\ E.id = 3 ELSE E.err = "ts" /\ E.said) /\ Same
    [] E.ev = "save" -> Save
    [] E.ev = "clear" -> E.none /\ Same
    [] E.ev = "flush" -> Flush /\ E.lib
    [] E.ev = "create" -> Create
    [] E.ev = "drop" -> Drop(E.i)
    [] E.ev = "set" -> Expect(Accepts(O, E.p), SetParam(E.i, E.p, E.v))
    [] E.ev = "get" -> E.has = (E.p \in DOMAIN O.p) /\ Expect(E.has, E.v = O.p[E.p] /\ Same)
    [] E.ev = "clr" -> Expect(E.p \in DOMAIN O.p, Clear(E.i, E.p))
    [] E.ev = "clrall" -> ClearAll(E.i)
    [] E.ev = "mode" -> Mode(E.i, E.weak)
    [] E.ev = "init" -> (IF MayStart(O) THEN E.err = "" ELSE E.err = "ts" /\ Range(E.said) = Lacking(O)) /\ Same
Real == /\ E.unk = "ts" /\ E.unksay /\ ~E.has
        /\ Range(E.uns) \subseteq Range(E.req) /\ Range(E.req) \cap Range(E.opt) = {}
        /\ \A n \in Range(E.req) : n \in Range(E.uns) \/ n \in Range(E.def)
        /\ (E.uns # <<>> => E.none = "ts") /\ Range(E.said) \subseteq Range(E.uns) /\ (E.uns # <<>> => E.said # <<>>) /\ E.without = E.uns /\ E.apart
NodeEvs == {"bnew", "bset", "bget", "bclr", "bclrall", "bop", "bname", "btype", "bshape", "bcopy", "bdrop"}
TraceInit == Init0(<<>>) /\ l = 1 /\ bub = NoMap
TraceNext ==
  \/ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1 /\ bub' = NoMap /\ reg' = [k \in Kinds |-> NoMap] /\ mem' = NoMap /\ saved' = <<>> /\ inst' = NoMap /\ impls' = E.impls
  \/ l <= Len(Trace) /\ E.ev = "done" /\ l' = l + 1 /\ Same /\ SameBub
  \/ l <= Len(Trace) /\ E.ev = "real" /\ l' = l + 1 /\ Same /\ SameBub /\ (IF Real THEN TRUE ELSE FALSE)
  \/ l <= Len(Trace) /\ E.ev \in NodeEvs /\ l' = l + 1 /\ NodeBody /\ (IF Obs THEN TRUE ELSE FALSE)
  \/ l <= Len(Trace) /\ E.ev \notin NodeEvs \cup {"reset", "done", "real"} /\ l' = l + 1 /\ OpBody /\ SameBub /\ (IF Obs THEN TRUE ELSE FALSE)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
