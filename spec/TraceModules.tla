---------------------------- MODULE TraceModules ----------------------------
EXTENDS Modules, TraceUtil
VARIABLES l
tv == <<mvars, l>>
E == Trace[l]
Same == UNCHANGED mvars
\* everything alive, as seen through the library, is what it should be
Obs == /\ Len(E.nodes) = Cardinality(DOMAIN nd')
       /\ \A i \in 1..Len(E.nodes) : LET o == E.nodes[i] IN
            /\ o.x \in DOMAIN nd'
            /\ LET n == nd'[o.x] IN o.op = n.op /\ o.name = n.name /\ o.p = n.p
                                    /\ o.ins = [k \in 1..Len(n.ins) |-> IF n.ins[k] \in DOMAIN nd' THEN n.ins[k] ELSE 0]
            /\ SameBag(o.outs, tops'[o.x])
       /\ Len(E.graphs) = Cardinality(DOMAIN gr')
       /\ \A i \in 1..Len(E.graphs) : gr'[E.graphs[i].g] = E.graphs[i].nodes
       /\ Len(E.mods) = Cardinality(DOMAIN md')
       /\ \A i \in 1..Len(E.mods) : LET o == E.mods[i] IN o.ins = md'[o.m].ins /\ o.outs = md'[o.m].outs
       /\ (E.ev # "drop" => Agree')
\* the inputs in the order the library put them
Order(m) == LET o == E.mods[CHOOSE i \in 1..Len(E.mods) : E.mods[i].m = m] IN SubSeq(o.ins, Len(md[m].ins) + 1, Len(o.ins))
LoadOf(outs) == IF Loadable(E.g, outs) THEN E.err = "" /\ Load(E.m, E.g, outs, Order(E.m)) /\ Orders(outs, Order(E.m)) ELSE E.err = "ts" /\ Same
Fused == LET ins == FreeIns(E.ms, E.rs)  outs == FreeOuts(E.ms, E.rs) IN
         /\ E.ins = [i \in 1..Len(ins) |-> nd[ins[i]].name]
         /\ E.outs = [i \in 1..Len(outs) |-> Term(outs[i], E.ms, E.rs, ins)]
Body ==
  CASE E.ev = "graph" -> NewGraph(E.g)
    [] E.ev = "make" -> Make(E.x, E.g, E.op, E.name)
    [] E.ev = "link" -> IF LinkOk(E.x, E.ins) THEN E.err = "" /\ Link(E.x, E.ins) ELSE E.err = "ts" /\ Same
    [] E.ev = "replace" -> E.err = "" /\ Replace(E.a, E.b)
    [] E.ev = "name" -> nd' = [nd EXCEPT ![E.x].name = E.name] /\ UNCHANGED <<tops, gr, md>>
    [] E.ev = "drop" -> DropGraph(E.g)
    [] E.ev = "mod" -> NewModule(E.m)
    [] E.ev = "dropmod" -> DropModule(E.m)
    [] E.ev = "clear" -> Clear(E.m)
    [] E.ev = "load" -> (CASE E.how = "ends" -> LoadOf(Ends(E.g))
                          [] E.how = "nodes" -> LoadOf(E.outs)
                          [] E.how = "names" -> IF NamesOk(E.g, E.names) THEN LoadOf(OutsOf(E.g, E.names)) ELSE E.err = "ts" /\ Same)
    [] E.ev = "sort" -> (CASE E.how = "nodes" -> IF SortOk(E.m, E.ins) THEN E.err = "" /\ Sort(E.m, E.ins) ELSE E.err = "ts" /\ Same
                          [] E.how = "names" -> IF SortNamesOk(E.m, E.names) THEN E.err = "" /\ Sort(E.m, InsOf(E.m, E.names)) ELSE E.err = "ts" /\ Same)
    [] E.ev = "setp" -> SetParam(E.m, E.name, E.v)
    [] E.ev = "ref" -> /\ Same
                       /\ LET d == Depths(Rg(E.of), 1) IN
                          /\ Len(E.got) = Cardinality(DOMAIN d) /\ {E.got[i][1] : i \in 1..Len(E.got)} = DOMAIN d
                          /\ \A i \in 1..Len(E.got) : E.got[i][2] = d[E.got[i][1]] /\ (i > 1 => E.got[i - 1][2] >= E.got[i][2])
    [] E.ev = "fuse" -> /\ Same
                        /\ IF RoutesOk(E.ms, E.rs) /\ InOrder(E.ms, E.rs) /\ FreeOuts(E.ms, E.rs) # <<>> THEN E.err = "" /\ Fused
                           ELSE IF ~RoutesOk(E.ms, E.rs) THEN E.err = "ts"
                           ELSE E.err = "ts" \/ Fused
TraceInit == Init /\ l = 1
TraceNext ==
  \/ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1 /\ nd' = <<>> /\ tops' = <<>> /\ gr' = <<>> /\ md' = <<>>
  \/ l <= Len(Trace) /\ E.ev # "reset" /\ l' = l + 1 /\ Body /\ (IF Obs THEN TRUE ELSE FALSE)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
