---------------------------- MODULE TraceRewrite ----------------------------
(* Recorded loads of one network, and runs of what was loaded.               *)
EXTENDS Rewrite, TraceUtil
VARIABLES l, net,
          pr          \* program -> [flt, win]
vars == <<l, net, pr>>
E == Trace[l]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == l = 1 /\ net = [g |-> <<>>, outs |-> <<>>, ins |-> <<>>] /\ pr = <<>>
Set(s) == {s[i] : i \in 1 .. Len(s)}
ArgsOk == /\ \A i \in 1 .. Len(E.decl) : LET d == E.decl[i] IN
                E.got[i] = (IF Switch([k \in 1 .. Len(E.toks) |-> E.toks[k].w], Set(d.pos), Set(d.neg), d.d) THEN 1 ELSE 0)
          /\ LET m == Renames(E.toks) IN
             \A i \in 1 .. Len(E.dev) : LET to == Mapped(m, E.dev[i]) IN
                \* round a circle, any device of it
                E.maps[i] = to \/ (E.maps[i] \in DOMAIN m /\ to \in DOMAIN m)
RunOk == LET v == TLCEval(Values(net, E.in, pr[E.p].flt))  most == IF pr[E.p].win THEN MaxAbs(v) ELSE 0
             bad == \E i \in 1 .. Len(net.outs) : v[net.outs[i]].k \in {"err", "any", "unused"}
         IN E.e = "" \/ bad => bad \/
            (Len(E.out) = Len(net.outs) /\ \A i \in 1 .. Len(net.outs) :
               IF Agree(v[net.outs[i]], E.out[i], net.g[net.outs[i]].sc, pr[E.p].win, most) THEN TRUE ELSE PrintT(<<"WHY", i, v[net.outs[i]], E.out[i]>>) /\ FALSE)
NoRunError == LET v == Values(net, E.in, pr[E.p].flt) IN
              \E i \in 1 .. Len(v) : v[i].k \in {"err", "any"}
Obs == CASE E.ev = "args" -> ArgsOk
         [] E.ev = "load" -> E.e = "" /\ E.src /\ (E.names => E.ins = Names(net.ins) /\ E.outs = Names(net.outs))
         [] E.ev = "tr" -> E.e = "" /\ E.src /\ E.ins = Names(net.ins) /\ E.outs = Names(net.outs)
         [] E.ev = "clone" -> E.src
         [] E.ev = "run" -> E.src /\ (IF E.e = "" THEN RunOk ELSE E.e = "ts" /\ NoRunError)
Body == CASE E.ev = "load" -> pr' = Put(pr, E.p, [flt |-> Filters(E.opts), win |-> E.win]) /\ UNCHANGED net
          [] E.ev = "clone" -> pr' = Put(pr, E.p, pr[E.of]) /\ UNCHANGED net
          [] OTHER -> UNCHANGED <<net, pr>>
TraceNext == \/ /\ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1
                /\ net' = [g |-> E.g, outs |-> E.outs, ins |-> E.ins] /\ pr' = <<>>
             \/ /\ l <= Len(Trace) /\ E.ev # "reset" /\ l' = l + 1 /\ Body /\ (IF Obs THEN TRUE ELSE FALSE)
TraceSpec == Init /\ [][TraceNext]_vars
=============================================================================
