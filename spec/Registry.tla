------------------------------ MODULE Registry ------------------------------
(* Implementations registered under keys, and operators made of them: which  *)
(* implementation a look-up gives, which parameters an operator accepts, and *)
(* when it may start.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES reg,     \* kind -> [key -> implementation]
          mem,     \* computing device -> memory device
          saved,   \* a remembered state of the operators' registry, <<>> or <<map>>
          inst,    \* operator -> [impl, weak: checking is off, p: parameter -> value]
          impls    \* implementation -> sequence of declared fields [n, req, d: default or -1]
vars == <<reg, mem, saved, inst, impls>>
CPU == "cpu"
NoMap == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Kinds == {"op", "fp16", "loader", "admin", "infer", "alloc", "conv"}
Init0(tab) == reg = [k \in Kinds |-> NoMap] /\ mem = NoMap /\ saved = <<>> /\ inst = NoMap /\ impls = tab
Register(kind, key, i) == reg' = [reg EXCEPT ![kind] = Put(@, key, i)] /\ UNCHANGED <<mem, saved, inst, impls>>
Exact(kind, key) == At(reg[kind], key)
\* the device itself, the device its memory is on, the host
Loose(kind, d, n) == IF Exact(kind, <<d, n>>) # 0 THEN Exact(kind, <<d, n>>)
                     ELSE LET m == IF d \in DOMAIN mem THEN Exact(kind, <<mem[d], n>>) ELSE 0
                          IN IF m # 0 THEN m ELSE Exact(kind, <<CPU, n>>)
Found(kind, d, n, strict) == IF strict THEN Exact(kind, <<d, n>>) ELSE Loose(kind, d, n)
MemOf(d, m) == mem' = Put(mem, d, m) /\ UNCHANGED <<reg, saved, inst, impls>>
Save == saved' = <<reg["op"]>> /\ UNCHANGED <<reg, mem, inst, impls>>
Flush == reg' = [reg EXCEPT !["op"] = saved[1]] /\ saved' = <<>> /\ UNCHANGED <<mem, inst, impls>>
-----------------------------------------------------------------------------
Fields(i) == impls[i]
Names(i) == {Fields(i)[k].n : k \in 1..Len(Fields(i))}
Required(i) == {Fields(i)[k].n : k \in {k \in 1..Len(Fields(i)) : Fields(i)[k].req}}
Defaults(i) == LET given == {k \in 1..Len(Fields(i)) : Fields(i)[k].d >= 0}
               IN [n \in {Fields(i)[k].n : k \in given} |-> Fields(i)[CHOOSE k \in given : Fields(i)[k].n = n].d]
Retained(p) == p = "#z"                      \* accepted by every operator
Fresh(i) == [impl |-> i, weak |-> FALSE, p |-> Defaults(i)]
\* empty values (0) do not count
Lacking(o) == {n \in Required(o.impl) : At(o.p, n) = 0}
MayStart(o) == o.weak \/ Lacking(o) = {}
Accepts(o, p) == o.weak \/ Retained(p) \/ p \in Names(o.impl)
RECURSIVE SetAll(_, _)
SetAll(o, g) == IF g = <<>> THEN o ELSE SetAll([o EXCEPT !.p = Put(@, g[1].n, g[1].v)], Tail(g))
New(x, o) == inst' = Put(inst, x, o) /\ UNCHANGED <<reg, mem, saved, impls>>
Change(x, o) == New(x, o)
SetParam(x, p, v) == Change(x, [inst[x] EXCEPT !.p = Put(@, p, v)])
Clear(x, p) == Change(x, [inst[x] EXCEPT !.p = Del(@, {p})])
ClearAll(x) == Change(x, [inst[x] EXCEPT !.p = [n \in {n \in DOMAIN @ : Retained(n)} |-> @[n]]])
Mode(x, w) == Change(x, [inst[x] EXCEPT !.weak = w])
Drop(x) == inst' = Del(inst, {x}) /\ UNCHANGED <<reg, mem, saved, impls>>
=============================================================================
