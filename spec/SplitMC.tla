------------------------------ MODULE SplitMC -------------------------------
(* How regions are grown: from any node not yet placed, by supported         *)
(* neighbours, never closing a way out of the region and back into it.  Such *)
(* a region counts as one node from then on (Merge), or regions would need   *)
(* each other.  Checked on every network of N nodes and every marking.       *)
EXTENDS Naturals, Integers, FiniteSets, Sequences
CONSTANTS N, MaxIns, Merge, Lims
VARIABLES ins, mark, lim, part, refs, cur, k
vars == <<ins, mark, lim, part, refs, cur, k>>
Node == 1 .. N
\* part: 0 not placed, -1 main network, else number of the region
RECURSIVE Closed(_, _)
Closed(f, i) == IF i > N THEN f ELSE Closed([f EXCEPT ![i] = ins[i] \cup UNION {f[j] : j \in ins[i]}], i + 1)
RECURSIVE Nets(_)
Nets(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, t) : s \in Nets(n - 1), t \in {t \in SUBSET (1 .. (n - 1)) : Cardinality(t) <= MaxIns}}
Init == /\ ins \in Nets(N)
        /\ mark \in [Node -> BOOLEAN] /\ lim \in Lims
        /\ part = [i \in Node |-> 0] /\ cur = {} /\ k = 0
        /\ refs = Closed([i \in Node |-> {}], 1)
Users(i) == {j \in Node : i \in ins[j]}
Bottoms(S) == UNION {ins[i] : i \in S} \ S
Tops(S) == {i \in S : Users(i) = {} \/ ~(Users(i) \subseteq S)}
\* no way leaves S and comes back
Sound(S) == ~ \E x \in Node \ S : (\E m \in S : x \in refs[m]) /\ refs[x] \cap S # {}
Free(i) == part[i] = 0 /\ i \notin cur
First(i) == \A j \in Node : i \in refs[j] => part[j] # 0
Start(i) == /\ cur = {} /\ Free(i) /\ First(i)
            /\ IF mark[i] THEN cur' = {i} /\ UNCHANGED part ELSE part' = [part EXCEPT ![i] = -1] /\ UNCHANGED cur
            /\ UNCHANGED <<ins, mark, lim, refs, k>>
Grow(i) == /\ cur # {} /\ Free(i) /\ mark[i] /\ (i \in Bottoms(cur) \/ ins[i] \cap cur # {})
           /\ Sound(cur \cup {i}) /\ (lim = "out" => Users(i) # {} /\ Users(i) \subseteq cur)
           /\ cur' = cur \cup {i} /\ UNCHANGED <<ins, mark, lim, part, refs, k>>
\* a node that reads from outside leaves, with all it needs
Trim(i) == /\ cur # {} /\ lim = "in" /\ Cardinality(Bottoms(cur)) > 1 /\ i \in cur /\ ~(ins[i] \subseteq cur)
           /\ LET left == {j \in cur : j # i /\ j \notin refs[i]} IN
              /\ cur' = left
              /\ IF left = {} THEN \E t \in cur : (\A j \in cur : t \notin refs[j]) /\ part' = [part EXCEPT ![t] = -1] ELSE UNCHANGED part
           /\ UNCHANGED <<ins, mark, lim, refs, k>>
Done == /\ cur # {} /\ (lim = "in" => Cardinality(Bottoms(cur)) <= 1)
        /\ k' = k + 1 /\ part' = [i \in Node |-> IF i \in cur THEN k + 1 ELSE part[i]] /\ cur' = {}
        /\ LET all == cur \cup UNION {refs[i] : i \in cur} IN
           refs' = IF Merge THEN [i \in Node |-> IF i \in cur \/ refs[i] \cap cur # {} THEN refs[i] \cup all ELSE refs[i]] ELSE refs
        /\ UNCHANGED <<ins, mark, lim>>
Next == (\E i \in Node : Start(i) \/ Grow(i) \/ Trim(i)) \/ Done
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Region(c) == {i \in Node : part[i] = c}
\* the place of a node in the main network: a region is one place
Place(i) == IF part[i] > 0 THEN {j \in Node : part[j] = part[i]} ELSE IF i \in cur THEN cur ELSE {i}
Over(P) == {Place(i) : i \in UNION {ins[j] : j \in P} \ P}
RECURSIVE Below(_)
Below(S) == LET T == S \cup UNION {Over(P) : P \in S} IN IF T = S THEN S ELSE Below(T)
Acyclic == \A i \in Node : Place(i) \notin Below(Over(Place(i)))
Limits == \A c \in 1 .. k : /\ Region(c) # {} /\ (\A i \in Region(c) : mark[i])
                            /\ (lim = "in" => Cardinality(Bottoms(Region(c))) <= 1)
                            /\ (lim = "out" => Cardinality(Tops(Region(c))) = 1)
\* nothing supported stays outside unless a limit keeps it out; nothing stays unplaced
Full == lim = "in" \/ \A i \in Node : part[i] = -1 => ~mark[i]
Placed == (\A i \in Node : ~ENABLED Start(i)) /\ cur = {} => \A i \in Node : part[i] # 0
=============================================================================
