---------------------------- MODULE TraceSession ----------------------------
(* Recorded histories of sessions: every result must be the meaning of the   *)
(* session's network on what is bound at that moment, whatever went before.  *)
EXTENDS Session, TraceUtil
VARIABLES l,
          progs,     \* program id -> [net, par, flt]: networks as compiled, with their settings
          ss,        \* session id -> [p, ins, outs, hook]
          held       \* results kept by the client
vars == <<l, progs, ss, held>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Name(n) == "n" \o ToString(n)
S == ss[E.s]
P == progs[S.p]
NoFlt(net) == [i \in 1 .. Len(net.ins) |-> 0]
Resize(v, n) == [i \in 1 .. n |-> IF i <= Len(v) THEN v[i] ELSE Void]
\* slot given as position (0-based) or name; 0: there is none
SlotIn(nodes, x) == IF x \in Int THEN (IF x >= 0 /\ x < Len(nodes) THEN x + 1 ELSE 0) ELSE 0
SlotNm(nodes, x) == LET c == {i \in 1 .. Len(nodes) : Name(nodes[i]) = x} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
Slot(nodes, x) == IF ToString(x) \in {ToString(i) : i \in -1 .. Len(nodes)} THEN SlotIn(nodes, x) ELSE SlotNm(nodes, x)
Refused == E.err # ""
Init == l = 1 /\ progs = <<>> /\ ss = <<>> /\ held = <<>>
Begin ==
  /\ Is("begin")
  /\ progs' = <<>> /\ ss' = <<>> /\ held' = <<>>
Compile ==
  /\ Is("prog")
  /\ ~Refused
            /\ LET net == [g |-> E.g, outs |-> E.outs, ins |-> E.ins]
               IN progs' = Put(progs, E.p, [net |-> net, par |-> <<>>, flt |-> NoFlt(net)])
  /\ UNCHANGED <<ss, held>>
Open ==
  /\ Is("open")
  /\ ss' = Put(ss, E.s, [p |-> 0, ins |-> <<>>, outs |-> <<>>, hook |-> <<>>]) /\ UNCHANGED <<progs, held>>
Setup ==
  /\ Is("setup")
  /\ LET net == progs[E.p].net IN
               ss' = [ss EXCEPT ![E.s] = [p |-> E.p, ins |-> Resize(S.ins, Len(net.ins)), outs |-> Resize(S.outs, Len(net.outs)), hook |-> <<>>]]
  /\ UNCHANGED <<progs, held>>
Bind ==
  /\ Is("bind")
  /\ LET k == Slot(P.net.ins, E.slot) IN
              IF k = 0 THEN Refused /\ UNCHANGED ss
              ELSE ~Refused /\ ss' = [ss EXCEPT ![E.s].ins[k] = E.v]
  /\ UNCHANGED <<progs, held>>
Filter ==
  /\ Is("filter")
  /\ LET k == Slot(P.net.ins, E.slot) IN
                IF k = 0 THEN Refused /\ UNCHANGED progs
                ELSE ~Refused /\ progs' = [progs EXCEPT ![S.p].flt[k] = E.k]
  /\ UNCHANGED <<ss, held>>
Run ==
  /\ Is("run")
  /\ LET o == TLCEval(Outcome(P.net, P.par, P.flt, S.ins)) IN
             IF o.t = "err" THEN Refused /\ ss' = [ss EXCEPT ![E.s].hook = <<>>]
             ELSE /\ ~Refused
                  /\ ss' = [ss EXCEPT ![E.s].outs = [i \in 1 .. Len(P.net.outs) |-> o.v[P.net.outs[i]]],
                                      ![E.s].hook = [x \in Rng(E.hook) |-> o.v[x]]]
  /\ UNCHANGED <<progs, held>>
    \* a result by position or by name; recorded intermediate results of a hooked run come first by name
    Hooked(x) == {n \in DOMAIN S.hook : Name(n) = x}
Out ==
  /\ Is("out")
  /\ LET k == Slot(P.net.outs, E.slot)
                            h == IF ToString(E.slot) \in {ToString(i) : i \in -1 .. Len(P.net.outs)} THEN {} ELSE Hooked(E.slot)
                            val == IF h # {} THEN S.hook[CHOOSE n \in h : TRUE] ELSE IF k = 0 THEN Err ELSE S.outs[k] IN
             IF Bad(val) THEN Refused /\ UNCHANGED held
             ELSE ~Refused /\ E.v = val /\ held' = Put(held, E.hold, val)
  /\ UNCHANGED <<progs, ss>>
Held ==
  /\ Is("held")
  /\ ~Refused /\ E.v = held[E.hold] /\ UNCHANGED <<progs, ss, held>>
Drop ==
  /\ Is("drop")
  /\ held' = Del(held, E.hold) /\ UNCHANGED <<progs, ss>>
In ==
  /\ Is("in")
  /\ E.v = S.ins[E.slot + 1] /\ UNCHANGED <<progs, ss, held>>
Param ==
  /\ Is("param")
  /\ ~Refused /\ progs' = [progs EXCEPT ![S.p].par = Put(P.par, E.node, E.p)] /\ UNCHANGED <<ss, held>>
Clone ==
  /\ Is("clone")
  /\ ~Refused
             /\ progs' = Put(progs, E.p, P)
             /\ ss' = Put(ss, E.n, [p |-> E.p, ins |-> [i \in 1 .. Len(P.net.ins) |-> Void], outs |-> [i \in 1 .. Len(P.net.outs) |-> Void], hook |-> <<>>])
  /\ UNCHANGED held
Close ==
  /\ Is("close")
  /\ ss' = Del(ss, E.s) /\ UNCHANGED <<progs, held>>
    \* the session's own program on given arguments, which leaves what is bound alone
Launch ==
  /\ Is("launch")
  /\ LET o == IF Len(E.args) # Len(P.net.ins) THEN Err ELSE TLCEval(Outcome(P.net, P.par, P.flt, E.args)) IN
                IF o.t = "err" THEN Refused ELSE ~Refused /\ E.outs = [i \in 1 .. Len(P.net.outs) |-> o.v[P.net.outs[i]]]
  /\ UNCHANGED <<progs, ss, held>>
Single ==
  /\ Is("single")
  /\ LET y == Fn(E.id, E.p, E.args) IN
                IF Bad(y) THEN Refused ELSE ~Refused /\ E.outs = <<y>>
  /\ UNCHANGED <<progs, ss, held>>
    Next == Begin \/ Compile \/ Open \/ Setup \/ Bind \/ Filter \/ Run \/ Out \/ Held \/ Drop \/ In \/ Param \/ Clone \/ Close \/ Launch \/ Single
    TraceSpec == Init /\ [][Next]_vars
    =============================================================================
