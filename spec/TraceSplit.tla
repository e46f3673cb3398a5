----------------------------- MODULE TraceSplit -----------------------------
(* Recorded cuts of networks.                                                *)
EXTENDS Split, TraceUtil
VARIABLES l, net
vars == <<l, net>>
E == Trace[l]
Init == l = 1 /\ net = [g |-> <<>>, outs |-> <<>>, ins |-> <<>>]
Say(w, ok) == IF ok THEN TRUE ELSE PrintT(<<"WHY", w>>) /\ FALSE
Obs == /\ E.err = "" /\ E.src
       /\ Say("whole", Whole(net, E)) /\ Say("parts", Parted(net, E)) /\ Say("limits", Limits(net, E)) /\ Say("full", Full(net, E))
TraceNext == \/ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1 /\ net' = [g |-> E.g, outs |-> E.outs, ins |-> E.ins]
             \/ l <= Len(Trace) /\ E.ev = "cut" /\ l' = l + 1 /\ UNCHANGED net /\ (IF Obs THEN TRUE ELSE FALSE)
TraceSpec == Init /\ [][TraceNext]_vars
=============================================================================
