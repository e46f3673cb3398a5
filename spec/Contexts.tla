------------------------------ MODULE Contexts ------------------------------
(* What is bound in each thread, the scopes that bind it, device contexts    *)
(* with their handles, run-time settings, and networks running inside scopes.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cur,    \* thread -> kind -> object bound, "" if none
          fr,     \* thread -> open scopes [run, b: network, prev: kinds bound -> what was bound before, at: profiler when it began]
          dc,     \* device context -> [t, d, h: handle or 0, known]
          rt,     \* run-time context -> [n: threads, fl, dy: has flow / dynamic storage]
          bench,  \* network -> [dv, rt, pf, tp: its own objects]
          hk,     \* hook -> <<before, after>> calls seen
          pf,     \* profiler -> records
          gr,     \* graph -> nodes
          pools,  \* other thread pools
          hs, nh  \* live handles -> device, handles made so far
vars == <<cur, fr, dc, rt, bench, hk, pf, gr, pools, hs, nh>>
Kinds == {"dv", "rt", "wb", "hk", "pf", "gr", "tp"}
NoMap == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Hidden == "?"                       \* an object nobody outside can name
Nothing == [k \in Kinds |-> ""]
Init0(T) == /\ cur = [t \in T |-> Nothing] /\ fr = [t \in T |-> <<>>] /\ dc = NoMap /\ rt = NoMap /\ bench = NoMap
            /\ hk = NoMap /\ pf = NoMap /\ gr = NoMap /\ pools = {} /\ hs = NoMap
Managed(type) == type \in {"vfa", "vfb"}
Known(type) == type \in {"vfa", "vfb", "vfn", "cpu"}
-----------------------------------------------------------------------------
(* requests to the device administrators *)
Ask(a, o) == IF o # "" /\ o \in DOMAIN dc THEN IF dc[o].h # 0 THEN <<[a |-> a, h |-> dc[o].h, t |-> dc[o].t, d |-> dc[o].d]>> ELSE <<>> ELSE <<>>
SwitchLog(from, to) == (IF from # to THEN Ask("S", from) ELSE <<>>) \o Ask("A", to)
Failed(l) == [l EXCEPT ![Len(l)].a = "X" \o @]
\* what a sequence of requests makes of the live handles; <<>> if one of them is not allowed
RECURSIVE Replay(_, _, _)
Replay(l, live, k) ==
  IF l = <<>> THEN [live |-> live, nh |-> k]
  ELSE LET e == l[1] IN
       IF e.a = "I" THEN IF e.h = k + 1 THEN Replay(Tail(l), Put(live, e.h, <<e.t, e.d>>), k + 1) ELSE [live |-> live, nh |-> -1]
       ELSE IF e.a = "XI" THEN Replay(Tail(l), live, k)
       ELSE IF e.h \notin DOMAIN live THEN [live |-> live, nh |-> -1]
       ELSE IF live[e.h] # <<e.t, e.d>> THEN [live |-> live, nh |-> -1]
       ELSE Replay(Tail(l), IF e.a = "F" THEN Del(live, {e.h}) ELSE live, k)
Requests(l) == LET r == Replay(l, hs, nh) IN r.nh # -1 /\ hs' = r.live /\ nh' = r.nh
-----------------------------------------------------------------------------
(* scopes *)
Bound(t) == cur[t]
Rebind(t, f) == cur' = [cur EXCEPT ![t] = [k \in Kinds |-> IF k \in DOMAIN f THEN f[k] ELSE @[k]]]
Open(t, new, run, b) ==
  /\ Rebind(t, new)
  /\ fr' = [fr EXCEPT ![t] = Append(@, [run |-> run, b |-> b, prev |-> [k \in DOMAIN new |-> cur[t][k]], at |-> IF "pf" \in DOMAIN new THEN new["pf"] ELSE cur[t]["pf"]])]
EnterScope(t, k, o) == Open(t, (k :> o), FALSE, "") /\ UNCHANGED <<dc, rt, bench, hk, pf, gr, pools>>
Own(b) == [dv |-> bench[b].dv, rt |-> bench[b].rt, wb |-> b, tp |-> bench[b].tp]
\* a network runs: with a hook of its own (how = 1), with its profiler if asked and not yet bound
RunBinds(t, b, how, prof) == Own(b) @@ (IF how = 1 THEN "hk" :> Hidden ELSE NoMap) @@ (IF prof /\ cur[t]["pf"] # bench[b].pf THEN "pf" :> bench[b].pf ELSE NoMap)
Begin(t, b, how, prof) ==
  LET n == RunBinds(t, b, how, prof)
      h == IF how = 1 THEN Hidden ELSE cur[t]["hk"]
  IN /\ Open(t, n, TRUE, b)
     /\ hk' = IF h \in DOMAIN hk THEN [hk EXCEPT ![h][1] = @ + 1] ELSE hk
     /\ UNCHANGED <<dc, rt, bench, pf, gr, pools>>
BeginLog(t, b) == SwitchLog(cur[t]["dv"], bench[b].dv)
\* leave n scopes; the inner ones restore before the outer ones
RECURSIVE Unwound(_, _, _)
Unwound(c, s, n) == IF n = 0 THEN c ELSE Unwound([k \in Kinds |-> IF k \in DOMAIN s[Len(s)].prev THEN s[Len(s)].prev[k] ELSE c[k]], SubSeq(s, 1, Len(s) - 1), n - 1)
RECURSIVE UnwindLog(_, _, _)
UnwindLog(c, s, n) == IF n = 0 THEN <<>>
                      ELSE LET f == s[Len(s)] c2 == [k \in Kinds |-> IF k \in DOMAIN f.prev THEN f.prev[k] ELSE c[k]]
                           IN (IF f.run THEN SwitchLog(c["dv"], c2["dv"]) ELSE <<>>) \o UnwindLog(c2, SubSeq(s, 1, Len(s) - 1), n - 1)
\* the profilers that record the end of the networks left
RECURSIVE Recorded(_, _, _)
Recorded(p, s, n) == IF n = 0 THEN p
                     ELSE LET f == s[Len(s)] IN Recorded(IF f.run /\ f.at \in DOMAIN p THEN [p EXCEPT ![f.at] = @ + 1] ELSE p, SubSeq(s, 1, Len(s) - 1), n - 1)
Unwind(t, n, normal) ==
  LET s == fr[t] IN
  /\ cur' = [cur EXCEPT ![t] = Unwound(@, s, n)]
  /\ fr' = [fr EXCEPT ![t] = SubSeq(@, 1, Len(@) - n)]
  /\ pf' = Recorded(pf, s, n)
  /\ hk' = IF normal /\ s[Len(s)].run /\ cur[t]["hk"] \in DOMAIN hk THEN [hk EXCEPT ![cur[t]["hk"]][2] = @ + 1] ELSE hk
  /\ UNCHANGED <<dc, rt, bench, gr, pools>>
SetBare(t, k, o) == Rebind(t, (k :> o)) /\ UNCHANGED <<fr, dc, rt, bench, hk, pf, gr, pools>>
-----------------------------------------------------------------------------
(* run-time settings *)
Threads(n, procs) == IF n < 0 THEN procs ELSE IF n = 0 THEN 1 ELSE n
Fixed == UNCHANGED <<cur, fr>>
SetRt(o, x) == rt' = Put(rt, o, x) /\ Fixed /\ UNCHANGED <<dc, bench, hk, pf, gr, pools>>
SetDc(o, x) == dc' = Put(dc, o, x) /\ Fixed /\ UNCHANGED <<rt, bench, hk, pf, gr, pools>>
NewBench(o, m, type, h, n) ==
  /\ bench' = Put(bench, o, [dv |-> "D" \o m, rt |-> "R" \o m, pf |-> "P" \o m, tp |-> "T" \o m])
  /\ dc' = Put(dc, "D" \o m, [t |-> type, d |-> 0, h |-> h, known |-> TRUE])
  /\ rt' = Put(rt, "R" \o m, [n |-> n, fl |-> TRUE, dy |-> TRUE])
  /\ pf' = Put(pf, "P" \o m, 0) /\ Fixed /\ UNCHANGED <<hk, gr, pools>>
DropBench(o) == /\ bench' = Del(bench, {o}) /\ dc' = Del(dc, {bench[o].dv}) /\ rt' = Del(rt, {bench[o].rt}) /\ pf' = Del(pf, {bench[o].pf})
                /\ Fixed /\ UNCHANGED <<hk, gr, pools>>
\* every live handle belongs to exactly one context, on the device it was made for
Owned == /\ {dc[o].h : o \in DOMAIN dc} \ {0} = DOMAIN hs
         /\ \A a, b \in DOMAIN dc : a # b /\ dc[a].h # 0 => dc[a].h # dc[b].h
         /\ \A o \in DOMAIN dc : dc[o].h # 0 => hs[dc[o].h] = <<dc[o].t, dc[o].d>>
=============================================================================
