------------------------------- MODULE Split --------------------------------
(* A network cut into a main network and sub-networks, by marks on its nodes *)
(* and limits on the sub-networks; wired back together it is the network.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
SE == INSTANCE SequencesExt
Rg(s) == {s[i] : i \in 1 .. Len(s)}
-----------------------------------------------------------------------------
\* a network: g, nodes in order [k, ins, mark, hint], outs, ins
Needed(net) ==
  LET F(S, k) == LET i == Len(net.g) + 1 - k IN IF i \in S THEN S \cup Rg(net.g[i].ins) ELSE S
  IN SE!FoldLeft(F, Rg(net.outs), [k \in 1 .. Len(net.g) |-> k])
Name(i) == "n" \o ToString(i)
OpName(k) == IF k = "param" THEN "<param>" ELSE IF k = "const" THEN "<const>" ELSE "vf_op"
-----------------------------------------------------------------------------
\* a part: nodes [p, op, name, hint, off, ins] (p the node of the network it is, or 0), outs, ins; inputs come first
Ordered(part) == \A i \in 1 .. Len(part.nodes) : \A q \in Rg(part.nodes[i].ins) : q \in 1 .. (i - 1)
Own(part) == {part.nodes[i].p : i \in {j \in 1 .. Len(part.nodes) : part.nodes[j].p > 0}}
Once(part) == Cardinality(Own(part)) = Cardinality({j \in 1 .. Len(part.nodes) : part.nodes[j].p > 0})
SubAt(cut, j) == {s \in 1 .. Len(cut.subs) : cut.subs[s].at = j}
SubOuts(cut, s) == LET q == cut.subs[s].part IN [i \in 1 .. Len(q.outs) |-> q.nodes[q.outs[i]].p]
\* what every node of the main network stands for: the nodes of the network it gives
MainGives(cut) ==
  LET m == cut.main
      V(vs, j) == LET n == m.nodes[j] IN
        IF n.p > 0 THEN <<n.p>>
        ELSE IF SubAt(cut, j) # {} THEN SubOuts(cut, CHOOSE s \in SubAt(cut, j) : TRUE)
        ELSE IF n.op = "_field" /\ Len(n.ins) = 1 THEN (IF n.off + 1 \in 1 .. Len(vs[n.ins[1]]) THEN <<vs[n.ins[1]][n.off + 1]>> ELSE <<>>)
        ELSE <<>>
  IN SE!FoldLeft(LAMBDA vs, j : Append(vs, V(vs, j)), <<>>, [j \in 1 .. Len(m.nodes) |-> j])
One(v) == IF Len(v) = 1 THEN v[1] ELSE 0
Ones(vs, ins) == [i \in 1 .. Len(ins) |-> One(vs[ins[i]])]
\* what every node of a sub-network stands for, in the place where the main network has it
SubGives(cut, s, mv) ==
  LET q == cut.subs[s].part  from == Ones(mv, cut.main.nodes[cut.subs[s].at].ins) IN
  [j \in 1 .. Len(q.nodes) |-> LET n == q.nodes[j] IN
     IF n.p > 0 THEN <<n.p>>
     ELSE IF \E k \in 1 .. Len(q.ins) : q.ins[k] = j /\ k <= Len(from) THEN <<from[CHOOSE k \in 1 .. Len(q.ins) : q.ins[k] = j]>>
     ELSE <<>>]
\* every node of the network in a part reads what it reads in the network
Wired(net, part, vs) ==
  \A j \in 1 .. Len(part.nodes) : LET n == part.nodes[j] IN
    n.p > 0 => /\ Ones(vs, n.ins) = net.g[n.p].ins /\ n.op = OpName(net.g[n.p].k)
               /\ n.name = Name(n.p) /\ n.hint = net.g[n.p].hint
Whole(net, cut) ==
  /\ Ordered(cut.main) /\ Once(cut.main)
  /\ \A s \in 1 .. Len(cut.subs) : LET u == cut.subs[s] IN
       /\ Ordered(u.part) /\ Once(u.part) /\ u.at > 0 /\ cut.main.nodes[u.at].op = cut.sub /\ cut.main.nodes[u.at].p = 0
       /\ Len(u.part.ins) = Len(cut.main.nodes[u.at].ins)
       /\ Cardinality(SubAt(cut, u.at)) = 1
  /\ LET mv == TLCEval(MainGives(cut)) IN
     /\ Ones(mv, cut.main.outs) = net.outs /\ Ones(mv, cut.main.ins) = net.ins
     /\ Wired(net, cut.main, mv)
     /\ \A s \in 1 .. Len(cut.subs) : LET u == cut.subs[s]  sv == TLCEval(SubGives(cut, s, mv)) IN
          /\ Wired(net, u.part, sv)
          \* its inputs are told as the nodes they come from are
          /\ \A k \in 1 .. Len(u.part.ins) : LET n == u.part.nodes[u.part.ins[k]]  o == One(sv[u.part.ins[k]]) IN
               o > 0 /\ n.p = 0 /\ n.op = "<param>" /\ n.name = Name(o) /\ n.hint = net.g[o].hint
          \* and as a module of its own it takes these inputs and gives these outputs
          /\ u.me = "" /\ u.mi = [k \in 1 .. Len(u.part.ins) |-> u.part.nodes[u.part.ins[k]].name]
          /\ u.mo = [k \in 1 .. Len(u.part.outs) |-> u.part.nodes[u.part.outs[k]].name]
-----------------------------------------------------------------------------
\* every needed node in one part
Parted(net, cut) ==
  LET own == [s \in 0 .. Len(cut.subs) |-> IF s = 0 THEN Own(cut.main) ELSE Own(cut.subs[s].part)] IN
  /\ \A i \in Needed(net) : Cardinality({s \in 0 .. Len(cut.subs) : i \in own[s]}) = 1
  /\ \A s \in 0 .. Len(cut.subs) : own[s] \subseteq Needed(net) \cup Rg(net.ins)
  /\ \A s \in 1 .. Len(cut.subs) : /\ \A i \in own[s] : net.g[i].mark \in {"support", "route"}
                                   /\ \E i \in own[s] : net.g[i].mark = "support"
Limits(net, cut) ==
  /\ cut.max => Len(cut.subs) <= 1
  /\ \A s \in 1 .. Len(cut.subs) : LET q == cut.subs[s].part IN
       /\ cut.si => Len(q.ins) <= 1
       /\ Len(q.outs) >= 1 /\ (cut.so => Len(q.outs) = 1)
       /\ Cardinality(Own(q)) >= cut.min
       /\ Cardinality(Rg(q.outs)) = Len(q.outs) /\ Cardinality(Rg(SE!FoldLeft(LAMBDA a, k : Append(a, q.nodes[q.ins[k]].name), <<>>, [k \in 1 .. Len(q.ins) |-> k]))) = Len(q.ins)
\* with no limit every supported node that needs an input is cut out
NeedInput(net) == SE!FoldLeft(LAMBDA S, i : IF net.g[i].k = "param" \/ \E j \in Rg(net.g[i].ins) : j \in S THEN S \cup {i} ELSE S, {}, [i \in 1 .. Len(net.g) |-> i])
Full(net, cut) == (~cut.si /\ ~cut.max /\ cut.min <= 1) =>
  \A i \in Needed(net) \cap NeedInput(net) : net.g[i].mark = "support" => \E s \in 1 .. Len(cut.subs) : i \in Own(cut.subs[s].part)
=============================================================================
