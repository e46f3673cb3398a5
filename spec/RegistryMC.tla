----------------------------- MODULE RegistryMC -----------------------------
EXTENDS Registry, TLC
CONSTANTS Devs, Insts, Depth
VARIABLE started
mv == <<vars, started>>
N == "n"
Tab == << <<[n |-> "a", req |-> TRUE, d |-> -1], [n |-> "b", req |-> FALSE, d |-> 1]>>, <<[n |-> "b", req |-> TRUE, d |-> 2]>> >>
Pars == {"a", "b", "c", "#z"}
Next ==
  \/ \E d \in Devs, i \in 1..2 : Register("op", <<d, N>>, i) /\ UNCHANGED started
  \/ \E d \in Devs \ {CPU}, m \in Devs : MemOf(d, m) /\ UNCHANGED started
  \/ saved = <<>> /\ Save /\ UNCHANGED started
  \/ saved # <<>> /\ Flush /\ UNCHANGED started
  \/ \E x \in Insts \ DOMAIN inst, d \in Devs, s \in BOOLEAN : Found("op", d, N, s) # 0 /\ New(x, Fresh(Found("op", d, N, s))) /\ UNCHANGED started
  \/ \E x \in DOMAIN inst, p \in Pars, v \in 0..1 : Accepts(inst[x], p) /\ SetParam(x, p, v) /\ UNCHANGED started
  \/ \E x \in DOMAIN inst, p \in Pars : p \in DOMAIN inst[x].p /\ Clear(x, p) /\ UNCHANGED started
  \/ \E x \in DOMAIN inst : Mode(x, ~inst[x].weak) /\ UNCHANGED started
  \/ \E x \in DOMAIN inst : MayStart(inst[x]) /\ started' = inst[x] /\ UNCHANGED vars
Spec == Init0(Tab) /\ started = <<>> /\ [][Next]_mv
\* what started strictly has all it needs
StartedWhole == started # <<>> /\ (IF started # <<>> THEN ~started.weak ELSE FALSE) => \A n \in Required(started.impl) : At(started.p, n) # 0
\* the exact one if there is one, nothing out of nowhere
FoundRight == \A d \in Devs, s \in BOOLEAN : LET f == Found("op", d, N, s) IN
                 /\ Exact("op", <<d, N>>) # 0 => f = Exact("op", <<d, N>>)
                 /\ f # 0 => \E e \in (IF s THEN {d} ELSE {d, CPU} \cup (IF d \in DOMAIN mem THEN {mem[d]} ELSE {})) : f = Exact("op", <<e, N>>)
                 /\ ~s /\ Exact("op", <<CPU, N>>) # 0 => f # 0
\* an operator's parameters change only by what is done to it
Apart == [][\A x, y \in DOMAIN inst : x # y /\ x \in DOMAIN inst' /\ y \in DOMAIN inst' => inst'[x] = inst[x] \/ inst'[y] = inst[y]]_mv
Bounded == TLCGet("level") <= Depth
=============================================================================
