------------------------------ MODULE ContextsMC ------------------------------
(* Two threads; device contexts on managed and plain devices, one network.   *)
EXTENDS Contexts
CONSTANTS Depth, Ts, Bare
VARIABLES snap, log      \* snap: thread -> what was bound when each open scope was entered
mv == <<vars, snap, log>>
Kset == {"dv", "rt"}
Objs(k) == IF k = "dv" THEN {""} \cup DOMAIN dc ELSE {"", "r"}
Step(lg) == LET r == Replay(lg, hs, nh) IN log' = lg /\ hs' = r.live /\ nh' = (IF r.nh = -1 THEN 99 ELSE r.nh)
Pushed(t) == snap' = [snap EXCEPT ![t] = Append(@, cur[t])]
Popped(t, n) == snap' = [snap EXCEPT ![t] = SubSeq(@, 1, Len(@) - n)]
Mk(o, ty) == [t |-> ty, d |-> 0, h |-> IF Managed(ty) THEN nh + 1 ELSE 0, known |-> TRUE]
MkLog(ty) == IF Managed(ty) THEN <<[a |-> "I", h |-> nh + 1, t |-> ty, d |-> 0]>> ELSE <<>>
Running(b) == \E t \in Ts : \E i \in 1..Len(fr[t]) : fr[t][i].b = b
Next ==
  \/ \E t \in Ts, k \in Kset : \E o \in Objs(k) : Len(fr[t]) < 2 /\ EnterScope(t, k, o) /\ Pushed(t) /\ Step(<<>>)
  \/ \E t \in Ts, b \in DOMAIN bench, prof \in BOOLEAN : Len(fr[t]) < 2 /\ ~Running(b) /\ Begin(t, b, 0, prof) /\ Pushed(t) /\ Step(BeginLog(t, b))
  \/ \E t \in Ts : \E n \in 1..Len(fr[t]) : Unwind(t, n, n = 1) /\ Popped(t, n) /\ Step(UnwindLog(cur[t], fr[t], n))
  \/ Bare /\ \E t \in Ts, k \in Kset : \E o \in Objs(k) : SetBare(t, k, o) /\ UNCHANGED snap /\ Step(<<>>)
  \/ \E ty \in {"vfa", "cpu"} : SetDc("d", Mk("d", ty)) /\ UNCHANGED snap /\ Step(Ask("F", "d") \o MkLog(ty))
  \/ "d" \in DOMAIN dc /\ "d2" \notin DOMAIN dc /\ dc' = Put(Put(dc, "d2", dc["d"]), "d", [dc["d"] EXCEPT !.h = 0]) /\ UNCHANGED <<cur, fr, rt, bench, hk, pf, gr, pools, snap>> /\ Step(<<>>)
  \/ bench = NoMap /\ NewBench("w1", "1", "vfa", nh + 1, 2) /\ UNCHANGED snap /\ Step(MkLog("vfa"))
Spec == Init0(Ts) /\ nh = 0 /\ snap = [t \in Ts |-> <<>>] /\ log = <<>> /\ [][Next]_mv
Bounded == TLCGet("level") <= Depth
\* no request for a handle that is not live, or for another device than its own
Legal == nh # 99
\* leaving scopes, whichever way, restores what was bound when they were entered
Restored == [][\A t \in Ts : Len(fr'[t]) < Len(fr[t]) => LET n == Len(fr'[t]) + 1 IN
                 \A k \in Kinds : (~Bare \/ k \in DOMAIN fr[t][n].prev) => cur'[t][k] = snap[t][n][k]]_mv
\* one thread's step is not seen by another
Private == [][Cardinality({t \in Ts : cur'[t] # cur[t]}) <= 1]_mv
\* a network that runs has its own objects bound when its scope is the innermost
InEffect == \A t \in Ts : ~Bare /\ fr[t] # <<>> => (fr[t][Len(fr[t])].run => cur[t]["wb"] = fr[t][Len(fr[t])].b /\ cur[t]["dv"] = bench[fr[t][Len(fr[t])].b].dv)
=============================================================================
