----------------------------- MODULE RewriteMC ------------------------------
(* How rewriting node by node keeps results: operators that read constants   *)
(* in a packed form, when loading asks for it, from networks whose constants *)
(* are shared and which are loaded many times, also from networks that were  *)
(* rewritten before.  Constants are told by how often they are packed.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ops, Consts, Nets, InPlace, Again, Depth
VARIABLES nets,     \* network -> [k: operator -> constant, c: constant -> times packed, f: operator -> reads packed]
          first,    \* the networks as they were made
          walk      \* the rewriting under way, or <<>>
vars == <<nets, first, walk>>
Free == {n \in Nets : n \notin DOMAIN nets}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == \E k \in [Ops -> Consts] :
          LET n == [k |-> k, c |-> [x \in Consts |-> 0], f |-> [o \in Ops |-> FALSE], own |-> [o \in Ops |-> 0]]
          IN nets = (CHOOSE n0 \in Nets : TRUE) :> n /\ first = nets /\ walk = <<>>
\* c: copies of constants so far; own: for a rewritten operator, its packed copy
Start(n, m, pack) ==
  /\ walk = <<>> /\ m \in Free
  /\ walk' = [from |-> n, to |-> m, pack |-> pack, c |-> <<>>, f |-> <<>>, own |-> <<>>] /\ UNCHANGED <<nets, first>>
Src == nets[walk.from]
\* the constant an operator reads: its own, or the shared one
Reads(n, o) == IF n.f[o] THEN n.own[o] ELSE n.c[n.k[o]]
Visit(o) ==
  /\ walk # <<>> /\ o \notin DOMAIN walk.f
  /\ LET packs == walk.pack /\ (Again \/ ~Src.f[o])  was == Reads(Src, o) IN
     IF packs THEN /\ walk' = [walk EXCEPT !.f = Put(@, o, TRUE), !.own = Put(@, o, was + 1)]
                   /\ nets' = IF InPlace THEN (IF Src.f[o] THEN [nets EXCEPT ![walk.from].own[o] = was + 1] ELSE [nets EXCEPT ![walk.from].c[Src.k[o]] = was + 1]) ELSE nets
     ELSE walk' = [walk EXCEPT !.f = Put(@, o, Src.f[o]), !.own = Put(@, o, IF Src.f[o] THEN Src.own[o] ELSE 0)] /\ UNCHANGED nets
  /\ UNCHANGED first
Copy(c) == /\ walk # <<>> /\ c \notin DOMAIN walk.c /\ walk' = [walk EXCEPT !.c = Put(@, c, Src.c[c])] /\ UNCHANGED <<nets, first>>
Finish == /\ walk # <<>> /\ DOMAIN walk.f = Ops /\ DOMAIN walk.c = Consts
          /\ LET n == [k |-> Src.k, c |-> walk.c, f |-> walk.f, own |-> walk.own]
             IN nets' = Put(nets, walk.to, n) /\ first' = Put(first, walk.to, n)
          /\ walk' = <<>>
Drop(n) == walk = <<>> /\ Cardinality(DOMAIN nets) > 1 /\ nets' = [x \in DOMAIN nets \ {n} |-> nets[x]] /\ first' = [x \in DOMAIN first \ {n} |-> first[x]] /\ UNCHANGED walk
Next == \/ \E n \in DOMAIN nets, m \in Nets, p \in BOOLEAN : Start(n, m, p)
        \/ \E o \in Ops : Visit(o)
        \/ \E c \in Consts : Copy(c)
        \/ Finish
        \/ \E n \in DOMAIN nets : Drop(n)
Spec == Init /\ [][Next]_vars
Bounded == TLCGet("level") <= Depth
\* every operator reads its constant in the form it takes it for
Right == \A n \in DOMAIN nets : \A o \in Ops : Reads(nets[n], o) = (IF nets[n].f[o] THEN 1 ELSE 0)
\* a network stays what it was made
Stays == nets = first
\* constants that are results themselves are as written
Plain == \A n \in DOMAIN nets : \A c \in Consts : nets[n].c[c] = 0
=============================================================================
