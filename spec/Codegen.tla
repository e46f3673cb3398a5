------------------------------ MODULE Codegen ------------------------------
(* The compiler's backward code generation (src/compiler/compiler.cpp) and   *)
(* the stack machine that runs the code, on every graph of up to N nodes.    *)
(* Generation simulates the value stack backwards from the outputs: it pops  *)
(* the top node, emits the instruction that computes it, pushes its inputs.  *)
EXTENDS GraphSem, TLC

CONSTANTS N,          \* nodes
          MaxOuts,    \* outputs requested
          MaxSteps    \* generation must end within that many steps

VARIABLES g, outs, ins, phase, sim, code, pc, stack, ran, steps
vars == <<g, outs, ins, phase, sim, code, pc, stack, ran, steps>>

Leaf == {[k |-> "param", ins |-> <<>>, f |-> 1], [k |-> "const", ins |-> <<>>, f |-> 1]}
Ops(n) == {[k |-> "op", ins |-> <<a>>, f |-> 1] : a \in 1 .. n} \cup {[k |-> "op", ins |-> <<a, b>>, f |-> 1] : a, b \in 1 .. n}
\* constant-only operators are folded before generation; the graphs here are the folded ones
Folded(gr) == LET c == ConstOnly(gr) IN \A n \in 1 .. Len(gr) : n \in c => gr[n].k = "const"

Init == /\ g = <<>> /\ outs = <<>> /\ ins = <<>> /\ phase = "graph" /\ sim = <<>> /\ code = <<>>
        /\ pc = 0 /\ stack = <<>> /\ ran = {} /\ steps = 0

AddNode == /\ phase = "graph" /\ Len(g) < N
           /\ \E x \in Leaf \cup Ops(Len(g)) : g' = Append(g, x)
           /\ Folded(g')
           /\ UNCHANGED <<outs, ins, phase, sim, code, pc, stack, ran, steps>>
AddOut == /\ phase \in {"graph", "outs"} /\ g # <<>> /\ Len(outs) < MaxOuts
          /\ \E n \in 1 .. Len(g) : outs' = Append(outs, n)
          /\ phase' = "outs"
          /\ UNCHANGED <<g, ins, sim, code, pc, stack, ran, steps>>
Params == {n \in 1 .. Len(g) : g[n].k = "param"}
Perms(S) == {p \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : p[i] = p[j] => i = j}
\* inputs: the needed parameters, possibly with unused ones, in any order
Start == /\ phase = "outs" /\ outs # <<>>
         /\ \E S \in {T \in SUBSET Params : (Needed(g, outs) \cap Params) \subseteq T} :
              \E p \in Perms(S) : ins' = p
         /\ phase' = "gen" /\ sim' = outs
         /\ UNCHANGED <<g, outs, code, pc, stack, ran, steps>>

---------------------------------------------------------------------------
\* generation; code is built in reverse (first element runs last)
Unsolved == {i \in 1 .. Len(sim) : g[sim[i]].k # "param"}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Top == sim[Len(sim)]
Butlast == SubSeq(sim, 1, Len(sim) - 1)
Exch(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
\* all nodes a node needs, itself excluded
Below(n) == Needed(g, g[n].ins)
Refs(n) == {i \in 1 .. Len(sim) : g[sim[i]].k = "op" /\ n \in Below(sim[i])}
Emit(i) == code' = Append(code, i)
Gen == /\ phase = "gen" /\ Unsolved # {} /\ steps' = steps + 1
       /\ LET i == Len(sim)
              first == Min({j \in 1 .. i : sim[j] = Top})
          IN IF first < i
             THEN Emit(<<"push", first - 1>>) /\ sim' = Butlast
             ELSE IF g[Top].k = "const"
             THEN Emit(<<"const", Top>>) /\ sim' = Butlast
             ELSE IF g[Top].k = "param"
             THEN LET j == Max(Unsolved) IN Emit(<<"swap", i - 1, j - 1>>) /\ sim' = Exch(sim, i, j)
             ELSE IF Refs(Top) # {}
             THEN LET j == Max(Refs(Top)) IN Emit(<<"swap", i - 1, j - 1>>) /\ sim' = Exch(sim, i, j)
             ELSE Emit(<<"op", Top>>) /\ sim' = Butlast \o g[Top].ins
       /\ UNCHANGED <<g, outs, ins, phase, pc, stack, ran>>
IndexOf(s, x) == Min({i \in 1 .. Len(s) : s[i] = x})
Finish == /\ phase = "gen" /\ Unsolved = {}
          /\ code' = IF sim = ins THEN code
                     ELSE Append(code, <<"erase", Len(ins)>>) \o
                          [q \in 1 .. Len(sim) |-> <<"push", IndexOf(ins, sim[Len(sim) + 1 - q]) - 1>>]
          /\ phase' = "run" /\ pc' = Len(code') /\ stack' = ins       \* a node stands for its value
          /\ UNCHANGED <<g, outs, ins, sim, ran, steps>>
---------------------------------------------------------------------------
\* the machine
Run == /\ phase = "run" /\ pc > 0 /\ pc' = pc - 1
       /\ LET c == code[pc] IN
          CASE c[1] = "push" -> stack' = Append(stack, stack[c[2] + 1]) /\ ran' = ran
            [] c[1] = "const" -> stack' = Append(stack, c[2]) /\ ran' = ran
            [] c[1] = "swap" -> stack' = Exch(stack, c[2] + 1, c[3] + 1) /\ ran' = ran
            [] c[1] = "erase" -> stack' = SubSeq(stack, c[2] + 1, Len(stack)) /\ ran' = ran
            [] c[1] = "op" -> LET k == Len(g[c[2]].ins) IN
                 /\ Assert(Len(stack) >= k, "operands missing")
                 /\ Assert(SubSeq(stack, Len(stack) - k + 1, Len(stack)) = g[c[2]].ins, "wrong operands")
                 /\ Assert(c[2] \notin ran, "executed twice")
                 /\ stack' = Append(SubSeq(stack, 1, Len(stack) - k), c[2])
                 /\ ran' = ran \cup {c[2]}
       /\ UNCHANGED <<g, outs, ins, phase, sim, code, steps>>
Halt == phase = "run" /\ pc = 0 /\ phase' = "done" /\ UNCHANGED <<g, outs, ins, sim, code, pc, stack, ran, steps>>

Next == AddNode \/ AddOut \/ Start \/ Gen \/ Finish \/ Run \/ Halt
Spec == Init /\ [][Next]_vars

EndsInTime == steps <= MaxSteps
OutputsRight == phase = "done" => stack = outs
EachOnce == phase = "done" => ran = {n \in Needed(g, outs) : g[n].k = "op"}
\* every node left for the inputs is one of the inputs
InputsOnly == (phase = "gen" /\ Unsolved = {}) => RangeOf(sim) \subseteq RangeOf(ins)
=============================================================================
