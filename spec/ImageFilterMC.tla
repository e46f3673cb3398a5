--------------------------- MODULE ImageFilterMC ----------------------------
(* How image filters keep their steps: a graph of steps, made into a program *)
(* only when it is needed; copies of filters and sessions hold the programs  *)
(* of other filters.  What is run is always what was asked for:              *)
(* want[f] are the steps added to f since it was made or cleared.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Filters, Steps, Most, Depth,
          WithGraph                      \* a clone takes the graph along (FALSE: only the program, as it once was)
VARIABLES graph, prog, comp, want, ses, swant, last
vars == <<graph, prog, comp, want, ses, swant, last>>
No == <<"none">>                        \* no program: images are left as they are
Live == DOMAIN graph
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Init == graph = <<>> /\ prog = <<>> /\ comp = <<>> /\ want = <<>> /\ ses = No /\ swant = <<>> /\ last = <<"none", <<>>, <<>>>>
New(f) == /\ f \notin Live /\ graph' = Put(graph, f, <<>>) /\ prog' = Put(prog, f, No) /\ comp' = Put(comp, f, FALSE) /\ want' = Put(want, f, <<>>)
          /\ UNCHANGED <<ses, swant, last>>
Add(f, s) == /\ f \in Live /\ Len(want[f]) < Most /\ graph' = [graph EXCEPT ![f] = Append(@, s)] /\ comp' = [comp EXCEPT ![f] = FALSE]
             /\ want' = [want EXCEPT ![f] = Append(@, s)] /\ UNCHANGED <<prog, ses, swant, last>>
Compiled(f) == IF comp[f] THEN prog[f] ELSE IF graph[f] # <<>> THEN graph[f] ELSE prog[f]
Compile(f) == /\ f \in Live /\ prog' = [prog EXCEPT ![f] = Compiled(f)] /\ comp' = [comp EXCEPT ![f] = TRUE] /\ UNCHANGED <<graph, want, ses, swant, last>>
Clear(f) == /\ f \in Live /\ graph' = [graph EXCEPT ![f] = <<>>] /\ prog' = [prog EXCEPT ![f] = No] /\ comp' = [comp EXCEPT ![f] = FALSE]
            /\ want' = [want EXCEPT ![f] = <<>>] /\ UNCHANGED <<ses, swant, last>>
\* a filter is compiled before it is cloned
Clone(f, g) == /\ f \in Live /\ g \notin Live
               /\ prog' = Put([prog EXCEPT ![f] = Compiled(f)], g, Compiled(f)) /\ comp' = Put([comp EXCEPT ![f] = TRUE], g, TRUE)
               /\ graph' = Put(graph, g, IF WithGraph THEN graph[f] ELSE <<>>) /\ want' = Put(want, g, want[f]) /\ UNCHANGED <<ses, swant, last>>
Drop(f) == f \in Live /\ graph' = Cut(graph, f) /\ prog' = Cut(prog, f) /\ comp' = Cut(comp, f) /\ want' = Cut(want, f) /\ UNCHANGED <<ses, swant, last>>
Done(p) == IF p = No THEN <<>> ELSE p
Run(f) == /\ f \in Live /\ prog' = [prog EXCEPT ![f] = Compiled(f)] /\ comp' = [comp EXCEPT ![f] = TRUE]
          /\ last' = <<"run", Done(Compiled(f)), want[f]>> /\ UNCHANGED <<graph, want, ses, swant>>
Bind(f) == /\ f \in Live /\ prog' = [prog EXCEPT ![f] = Compiled(f)] /\ comp' = [comp EXCEPT ![f] = TRUE]
           /\ ses' = Compiled(f) /\ swant' = want[f] /\ UNCHANGED <<graph, want, last>>
SRun == last' = <<"session", Done(ses), swant>> /\ UNCHANGED <<graph, prog, comp, want, ses, swant>>
Module(f) == f \in Live /\ last' = <<"module", graph[f], want[f]>> /\ UNCHANGED <<graph, prog, comp, want, ses, swant>>
Next == \/ \E f \in Filters : New(f) \/ (\E s \in Steps : Add(f, s)) \/ Compile(f) \/ Clear(f) \/ Drop(f) \/ Run(f) \/ Bind(f) \/ Module(f)
        \/ \E f, g \in Filters : Clone(f, g)
        \/ SRun
Spec == Init /\ [][Next]_vars
Bounded == TLCGet("level") <= Depth
Sym == Permutations(Filters) \cup Permutations(Steps)
\* what was done is what was asked for; a session keeps what it was given
Asked == last[2] = last[3]
Kept == Done(ses) = swant
=============================================================================
