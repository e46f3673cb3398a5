------------------------------ MODULE GraphSem ------------------------------
(* Networks as finite acyclic graphs and what their nodes denote.            *)
(* A graph is a sequence of nodes in an order where inputs come first:       *)
(*   [k |-> "param"|"const"|"op"|"pack"|"field", ins |-> Seq(node), f |-> n] *)
(* f is the field index (0-based) of a field node, and the number of results *)
(* (fields) of an op.  A value is a sequence of scalars (its fields).        *)
EXTENDS Integers, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))

\* number of fields of each node's value
WidthAll(g) ==
  LET W[n \in 1 .. Len(g)] ==
        CASE g[n].k \in {"param", "const", "field"} -> 1
          [] g[n].k = "op" -> g[n].f
          [] g[n].k = "pack" -> Len(g[n].ins)
  IN W
\* nodes reachable from outs
Needed(g, outs) ==
  LET RECURSIVE R(_, _)
      R(todo, seen) == IF todo = {} THEN seen
                       ELSE LET nxt == UNION {RangeOf(g[n].ins) : n \in todo} \ (seen \cup todo)
                            IN R(nxt, seen \cup todo)
  IN R(RangeOf(outs), {})
\* nodes whose value depends on no parameter
ConstOnly(g) ==
  LET RECURSIVE C(_, _)
      C(n, acc) == IF n > Len(g) THEN acc
                   ELSE C(n + 1, IF g[n].k = "const" \/ (g[n].k # "param" /\ RangeOf(g[n].ins) \subseteq acc)
                                 THEN acc \cup {n} ELSE acc)
  IN C(1, {})
\* the value of node n, given the values v of computed nodes (params, consts and ops have an entry # <<>>)
RECURSIVE ValueOf(_, _, _)
ValueOf(g, v, n) ==
  CASE g[n].k \in {"param", "const", "op"} -> v[n]
    [] g[n].k = "field" -> LET x == ValueOf(g, v, g[n].ins[1]) IN IF g[n].f + 1 \in DOMAIN x THEN <<x[g[n].f + 1]>> ELSE <<>>
    [] g[n].k = "pack" -> FlatSeq([i \in 1 .. Len(g[n].ins) |-> ValueOf(g, v, g[n].ins[i])])
=============================================================================
