------------------------------ MODULE ModulesMC ------------------------------
(* Small graphs in every state reachable by making, linking, replacing and   *)
(* dropping nodes, and loading modules from them.                            *)
EXTENDS Modules, TLC
CONSTANTS Nodes, Graphs, Mods, Names, Depth
Tuples == {<<>>} \cup {<<a>> : a \in Live} \cup {<<a, b>> : a \in Live, b \in Live}
OneOrder(S) == CHOOSE q \in [1..Cardinality(S) -> S] : Rg(q) = S
\* following links from S never comes back to x
RECURSIVE Down(_)
Down(S) == LET T == S \cup UNION {IF y \in Live THEN Rg(nd[y].ins) ELSE {} : y \in S} IN IF T = S THEN S ELSE Down(T)
MCNext ==
  \/ \E g \in Graphs : NewGraph(g)
  \/ \E x \in Nodes, g \in DOMAIN gr, o \in {"<param>", "op"}, n \in Names : (\A y \in Live : y # x) /\ (x = CHOOSE z \in Nodes : z \notin Live) /\ (\A y \in Live : x \notin Rg(nd[y].ins)) /\ Make(x, g, o, n)
  \/ \E x \in Live : \E ins \in Tuples : nd[x].op = "op" /\ x \notin Down(Rg(ins)) /\ Link(x, ins)
  \/ \E a \in Live, b \in Live : a \notin Down({b}) /\ b \notin UNION {Down(Rg(nd[z].ins)) : z \in Live} \cap Down({a}) /\ (\A c \in Rg(tops[a]) : c \notin Down({b})) /\ Replace(a, b)
  \/ \E g \in DOMAIN gr : DropGraph(g)
  \/ \E m \in Mods : NewModule(m)
  \/ \E m \in DOMAIN md, g \in DOMAIN gr : \E outs \in Tuples : (outs # <<>>) /\ Loadable(g, outs) /\ Len(md[m].outs) = 0 /\ Load(m, g, outs, OneOrder(Params(outs)))
  \/ \E m \in DOMAIN md : Clear(m)
Spec == Init /\ [][MCNext]_mvars
Bounded == TLCGet("level") <= Depth
=============================================================================
