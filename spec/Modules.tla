------------------------------ MODULE Modules ------------------------------
(* Graphs of nodes, the links between them, and modules made from them.      *)
(* Every node knows its inputs, in order, and its consumers, one entry per   *)
(* use; the two are kept by separate steps and must agree.  A graph holds    *)
(* its nodes; a module holds the nodes of the graphs loaded into it.         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nd,      \* live node -> [g, op, name, p, ins: Seq(node)]
          tops,    \* live node -> Seq(node): who uses it
          gr,      \* graph -> Seq(node), in the order made
          md       \* module -> [ins: Seq(node), outs: Seq(node), holds: set of nodes]
mvars == <<nd, tops, gr, md>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Keep(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Rg(s) == {s[i] : i \in 1..Len(s)}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rg(a) \cup Rg(b) : Times(a, x) = Times(b, x)
Init == nd = <<>> /\ tops = <<>> /\ gr = <<>> /\ md = <<>>
Live == DOMAIN nd
NewGraph(g) == g \notin DOMAIN gr /\ gr' = Put(gr, g, <<>>) /\ UNCHANGED <<nd, tops, md>>
Make(x, g, op, name) ==
  /\ x \notin Live /\ nd' = Put(nd, x, [g |-> g, op |-> op, name |-> name, p |-> 0, ins |-> <<>>])
  /\ tops' = Put(tops, x, <<>>) /\ gr' = [gr EXCEPT ![g] = Append(@, x)] /\ UNCHANGED md
\* x is no more a consumer of its old inputs, and one of each new one, as often as it uses it
LinkOk(x, ins) == x \in Live /\ Rg(ins) \subseteq Live
Link(x, ins) ==
  /\ nd' = [nd EXCEPT ![x].ins = ins]
  /\ LET off == [y \in Live |-> IF y \in Rg(nd[x].ins) THEN Without(tops[y], x) ELSE tops[y]]
     IN tops' = [y \in Live |-> off[y] \o [i \in 1..Times(ins, y) |-> x]]
  /\ UNCHANGED <<gr, md>>
\* what used a uses b
Swap(s, a, b) == [i \in 1..Len(s) |-> IF s[i] = a THEN b ELSE s[i]]
Replace(a, b) ==
  /\ IF a = b THEN UNCHANGED <<nd, tops>>
     ELSE /\ nd' = [x \in Live |-> [nd[x] EXCEPT !.ins = Swap(@, a, b)]]
          /\ tops' = [tops EXCEPT ![b] = @ \o tops[a], ![a] = <<>>]
  /\ UNCHANGED <<gr, md>>
Held(gs, ms) == UNION {Rg(gs[g]) : g \in DOMAIN gs} \cup UNION {ms[m].holds : m \in DOMAIN ms}
\* graphs and modules are left; what nobody holds is gone, for its inputs too
Settle(gs, ms) == LET S == Held(gs, ms) IN
  /\ gr' = gs /\ md' = ms /\ nd' = Keep(nd, S)
  /\ tops' = [x \in Live \cap S |-> SelectSeq(tops[x], LAMBDA y : y \in S)]
DropGraph(g) == Settle(Keep(gr, DOMAIN gr \ {g}), md)
DropModule(m) == Settle(gr, Keep(md, DOMAIN md \ {m}))
NewModule(m) == m \notin DOMAIN md /\ md' = Put(md, m, [ins |-> <<>>, outs |-> <<>>, holds |-> {}]) /\ UNCHANGED <<nd, tops, gr>>
Clear(m) == Settle(gr, [md EXCEPT ![m] = [ins |-> <<>>, outs |-> <<>>, holds |-> {}]])
\* --- what a set of outputs needs
Leaf(x) == nd[x].op \in {"<param>", "<const>"}
Next1(S) == S \cup UNION {IF x \in Live /\ ~Leaf(x) THEN Rg(nd[x].ins) ELSE {} : x \in S}
RECURSIVE Reach(_)
Reach(S) == LET T == Next1(S) IN IF T = S THEN S ELSE Reach(T)
\* all of it is in g, and whatever is no parameter or constant has something to be computed from
Loadable(g, outs) == \A x \in Reach(Rg(outs)) : x \in Rg(gr[g]) /\ (Leaf(x) \/ nd[x].ins # <<>>)
Params(outs) == {x \in Reach(Rg(outs)) : nd[x].op = "<param>"}
Load(m, g, outs, order) == md' = [md EXCEPT ![m] = [ins |-> @.ins \o order, outs |-> @.outs \o outs, holds |-> @.holds \cup Rg(gr[g])]] /\ UNCHANGED <<nd, tops, gr>>
Orders(outs, order) == Rg(order) = Params(outs) /\ Len(order) = Cardinality(Params(outs))
\* without outputs: what nobody uses, in order
Ends(g) == SelectSeq(gr[g], LAMBDA x : tops[x] = <<>>)
Named(g, n) == {x \in Rg(gr[g]) : nd[x].name = n}
NamesOk(g, names) == \A i \in 1..Len(names) : Cardinality(Named(g, names[i])) = 1
OutsOf(g, names) == [i \in 1..Len(names) |-> CHOOSE x \in Named(g, names[i]) : TRUE]
\* --- the order of the inputs
SortOk(m, ins) == Rg(md[m].ins) \subseteq Rg(ins)
Sort(m, ins) == md' = [md EXCEPT ![m].ins = ins] /\ UNCHANGED <<nd, tops, gr>>
InNamed(m, n) == {i \in 1..Len(md[m].ins) : nd[md[m].ins[i]].name = n}
SortNamesOk(m, names) == /\ \A i \in 1..Len(md[m].ins) : Cardinality(InNamed(m, nd[md[m].ins[i]].name)) = 1
                         /\ \A i \in 1..Len(names) : InNamed(m, names[i]) # {}
                         /\ \A i \in 1..Len(md[m].ins) : nd[md[m].ins[i]].name \in Rg(names)
InsOf(m, names) == [i \in 1..Len(names) |-> md[m].ins[CHOOSE k \in InNamed(m, names[i]) : TRUE]]
SetParam(m, n, v) == nd' = [x \in Live |-> IF x \in md[m].holds /\ nd[x].name = n THEN [nd[x] EXCEPT !.p = v] ELSE nd[x]] /\ UNCHANGED <<tops, gr, md>>
\* --- depth below the given nodes: the longest way down to each
RECURSIVE Depths(_, _)
Depths(S, d) == IF S = {} THEN <<>>
                ELSE LET rest == Depths(UNION {Rg(nd[x].ins) : x \in S}, d + 1)
                     IN [x \in S \cup DOMAIN rest |-> IF x \in DOMAIN rest THEN rest[x] ELSE d]
\* --- modules wired together.  A route leads an output of one to an input of another.
RoutesOk(ms, rs) ==
  \A i \in 1..Len(rs) : LET r == rs[i] IN
    /\ r.a \in 1..Len(ms) /\ r.b \in 1..Len(ms)
    /\ (IF r.o < 0 THEN Len(md[ms[r.a]].outs) = 1 ELSE r.o < Len(md[ms[r.a]].outs))
    /\ (IF r.i < 0 THEN Len(md[ms[r.b]].ins) = 1 ELSE r.i < Len(md[ms[r.b]].ins))
Slot(k) == (IF k < 0 THEN 0 ELSE k) + 1
From(ms, r) == md[ms[r.a]].outs[Slot(r.o)]
To(ms, r) == md[ms[r.b]].ins[Slot(r.i)]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
FreeIns(ms, rs) == LET used == {To(ms, rs[i]) : i \in 1..Len(rs)} IN Cat([k \in 1..Len(ms) |-> SelectSeq(md[ms[k]].ins, LAMBDA x : x \notin used)])
FreeOuts(ms, rs) == LET used == {From(ms, rs[i]) : i \in 1..Len(rs)} IN Cat([k \in 1..Len(ms) |-> SelectSeq(md[ms[k]].outs, LAMBDA x : x \notin used)])
\* the network an output stands for, as a term: what is routed appears as a copy, under the input's name
RECURSIVE Term(_, _, _, _)
Term(x, ms, rs, ins) ==
  LET at == {i \in 1..Len(rs) : To(ms, rs[i]) = x} IN
  IF at # {} THEN [op |-> "_copy", name |-> nd[x].name, p |-> 0, in |-> -1, of |-> <<Term(From(ms, rs[CHOOSE i \in at : \A j \in at : i <= j]), ms, rs, ins)>>]
  ELSE [op |-> nd[x].op, name |-> nd[x].name, p |-> nd[x].p,
        in |-> (IF x \in Rg(ins) THEN (CHOOSE i \in 1..Len(ins) : ins[i] = x /\ \A j \in 1..(i - 1) : ins[j] # x) ELSE -1),
        of |-> [i \in 1..Len(nd[x].ins) |-> Term(nd[x].ins[i], ms, rs, ins)]]
\* every route comes after those its source needs
InOrder(ms, rs) == \A i \in 1..Len(rs) : \A j \in i..Len(rs) : To(ms, rs[j]) \notin Reach({From(ms, rs[i])})
\* --- what must hold: inputs and consumers agree
Agree == /\ \A x \in Live, y \in Live : Times(tops[y], x) = Times(nd[x].ins, y)
         /\ \A y \in Live : Rg(tops[y]) \subseteq Live
ModulesHold == \A m \in DOMAIN md : Rg(md[m].outs) \subseteq Live /\ Rg(md[m].ins) \subseteq Live
=============================================================================
