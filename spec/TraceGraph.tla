----------------------------- MODULE TraceGraph -----------------------------
(* Recorded compilations and runs of networks must be evaluations of their   *)
(* graphs: every needed operator once per run, on the values of its inputs   *)
(* (constant-only ones possibly once, at compilation), outputs by GraphSem.  *)
EXTENDS GraphSem, TraceUtil, TLC
VARIABLES l, g, outs, ins, phase, val, need,
          cst,     \* nodes depending on constants only
          kept     \* those computed at compilation, for all runs
vars == <<l, g, outs, ins, phase, val, need, cst, kept>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1

Init == l = 1 /\ g = <<>> /\ outs = <<>> /\ ins = <<>> /\ phase = "idle" /\ val = <<>> /\ need = {} /\ cst = {} /\ kept = {}
Net == /\ Is("net") /\ phase = "idle"
       /\ g' = E.g /\ outs' = E.outs /\ ins' = E.ins /\ phase' = "compile"
       /\ need' = Needed(E.g, E.outs) /\ cst' = ConstOnly(E.g)
       /\ val' = [n \in 1 .. Len(E.g) |-> IF E.g[n].k = "const" THEN <<n>> ELSE <<>>] /\ kept' = {}
Exec == /\ Is("exec") /\ phase \in {"compile", "run"}
        /\ LET k == E.k IN
           /\ k \in need /\ g[k].k = "op"
           /\ phase = "compile" => k \in cst
           /\ val[k] = <<>>                                             \* not yet executed
           /\ Len(E.in) = Len(g[k].ins)
           /\ \A i \in 1 .. Len(E.in) : E.in[i] = ValueOf(g, val, g[k].ins[i]) /\ E.in[i] # <<>>
           /\ Len(E.out) = g[k].f
           /\ val' = [val EXCEPT ![k] = E.out]
        /\ UNCHANGED <<g, outs, ins, phase, need, cst, kept>>
Compiled == /\ Is("compiled") /\ phase = "compile" /\ E.err = "" /\ phase' = "ready"
            /\ kept' = {n \in cst : val[n] # <<>>} /\ UNCHANGED <<g, outs, ins, val, need, cst>>
Run == /\ Is("run") /\ phase = "ready" /\ phase' = "run" /\ Len(E.args) = Len(ins)
       /\ val' = [n \in 1 .. Len(g) |->
                    IF g[n].k = "param" THEN (IF n \in RangeOf(ins) THEN <<E.args[CHOOSE i \in 1 .. Len(ins) : ins[i] = n]>> ELSE <<>>)
                    ELSE IF n \in kept THEN val[n] ELSE <<>>]
       /\ UNCHANGED <<g, outs, ins, need, cst, kept>>
Result == /\ Is("result") /\ phase = "run" /\ E.err = ""
          /\ \A n \in need : g[n].k = "op" => val[n] # <<>>             \* all executed
          /\ E.outs = [i \in 1 .. Len(outs) |-> ValueOf(g, val, outs[i])]
          /\ phase' = "ready" /\ UNCHANGED <<g, outs, ins, val, need, cst, kept>>
\* the next network may start once the last one is ready
NetAgain == Is("net") /\ phase = "ready" /\ phase' = "compile" /\ g' = E.g /\ outs' = E.outs /\ ins' = E.ins
            /\ need' = Needed(E.g, E.outs) /\ cst' = ConstOnly(E.g)
            /\ val' = [n \in 1 .. Len(E.g) |-> IF E.g[n].k = "const" THEN <<n>> ELSE <<>>] /\ kept' = {}
Next == Net \/ NetAgain \/ Exec \/ Compiled \/ Run \/ Result
TraceSpec == Init /\ [][Next]_vars
=============================================================================
