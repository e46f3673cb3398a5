---------------------------- MODULE TraceContexts ----------------------------
EXTENDS Contexts, TraceUtil
VARIABLES l, procs
tv == <<vars, l, procs>>
E == Trace[l]
T == 1..3
Range(s) == {s[i] : i \in 1..Len(s)}
Same == UNCHANGED <<cur, fr, dc, rt, bench, hk, pf, gr, pools>>
Log(x) == E.log = x /\ Requests(E.log)
Quiet == Log(<<>>)
Mem(x) == <<"cpu", x.d>>
ObsDc(o, x) == o.h = x.h /\ (x.known => o.t = x.t /\ o.d = x.d /\ <<o.m, o.md>> = Mem(x))
ObsRt(o, x) == o.n = x.n /\ o.p = x.n /\ o.fl = x.fl /\ o.dy = x.dy
All(list, f) == {list[i].o : i \in 1..Len(list)} = DOMAIN f
Obs == /\ \A t \in T : E.cur[t] = cur'[t]
       /\ All(E.dv, dc') /\ \A i \in 1..Len(E.dv) : ObsDc(E.dv[i], dc'[E.dv[i].o])
       /\ All(E.rt, rt') /\ \A i \in 1..Len(E.rt) : ObsRt(E.rt[i], rt'[E.rt[i].o])
       /\ All(E.hk, hk') /\ \A i \in 1..Len(E.hk) : <<E.hk[i].b, E.hk[i].a>> = hk'[E.hk[i].o]
       /\ All(E.pf, pf') /\ \A i \in 1..Len(E.pf) : E.pf[i].c = pf'[E.pf[i].o]
       /\ All(E.gr, gr') /\ \A i \in 1..Len(E.gr) : E.gr[i].c = gr'[E.gr[i].o]
       /\ E.live = Cardinality(DOMAIN hs') /\ (Owned)'
C == cur[E.t]
Fin(o) == Ask("F", o)
Fresh(type, d) == [a |-> "I", h |-> nh + 1, t |-> type, d |-> d]
Made(type, d) == [t |-> type, d |-> d, h |-> IF Managed(type) THEN nh + 1 ELSE 0, known |-> TRUE]
MadeLog(type, d) == IF Managed(type) THEN <<Fresh(type, d)>> ELSE <<>>
Run == LET lg == BeginLog(E.t, E.o) IN
       IF E.fail /\ Ask("A", bench[E.o].dv) # <<>> THEN ~E.in /\ E.err = "ts" /\ Log(Failed(lg)) /\ Same
       ELSE E.in /\ E.err = "" /\ Log(lg) /\ Begin(E.t, E.o, E.how, E.prof)
Switch == LET s == IF C["dv"] # E.o THEN Ask("S", C["dv"]) ELSE <<>>
              a == Ask("A", E.o)
          IN CASE E.hit = "S" -> E.err = "ts" /\ s # <<>> /\ Log(Failed(s)) /\ Same
               [] E.hit = "A" -> E.err = "ts" /\ a # <<>> /\ Log(s \o Failed(a)) /\ Same
               [] OTHER -> E.err = "" /\ E.pre = C["dv"] /\ Log(s \o a) /\ SetBare(E.t, "dv", E.o)
NewHandle == LET r == Replay(E.log, hs, nh) IN DOMAIN r.live \ DOMAIN hs
Bench(type, n) == /\ Requests(E.log)
                  /\ (IF Managed(type) THEN Cardinality(NewHandle) = 1 ELSE NewHandle = {}) /\ DOMAIN hs \subseteq DOMAIN hs'
                  /\ E.born # <<>> /\ Range(E.born) = {"good"}
                  /\ NewBench(E.o, E.m, type, IF Managed(type) THEN CHOOSE h \in NewHandle : TRUE ELSE 0, n)
Body ==
  CASE E.ev = "enter" -> EnterScope(E.t, E.k, E.o) /\ Quiet
    [] E.ev = "leave" -> E.err = "" /\ Log(UnwindLog(C, fr[E.t], 1)) /\ Unwind(E.t, 1, TRUE)
    [] E.ev = "throw" -> Log(UnwindLog(C, fr[E.t], E.n)) /\ Unwind(E.t, E.n, FALSE)
    [] E.ev = "run" -> Run
    [] E.ev = "set" -> SetBare(E.t, E.k, E.o) /\ Quiet
    [] E.ev = "none" -> cur' = [cur EXCEPT ![E.t] = Nothing] /\ UNCHANGED <<fr, dc, rt, bench, hk, pf, gr, pools>> /\ Quiet
    [] E.ev = "ref" -> (IF C[E.k] = "" THEN E.err = "ts" ELSE E.err = "" /\ E.o = C[E.k]) /\ Same /\ Quiet
    [] E.ev = "mem" -> (IF C["rt"] = "" THEN ~E.fl /\ ~E.dy ELSE E.fl = rt[C["rt"]].fl /\ E.dy = rt[C["rt"]].dy) /\ Same /\ Quiet
    [] E.ev = "timer" -> /\ E.on = (C["pf"] # "")
                         /\ pf' = (IF C["pf"] \in DOMAIN pf THEN [pf EXCEPT ![C["pf"]] = @ + 1] ELSE pf)
                         /\ UNCHANGED <<cur, fr, dc, rt, bench, hk, gr, pools>> /\ Quiet
    [] E.ev = "node" -> /\ E.err = (IF C["gr"] = "" THEN "ts" ELSE "")
                        /\ gr' = (IF C["gr"] \in DOMAIN gr THEN [gr EXCEPT ![C["gr"]] = @ + 1] ELSE gr)
                        /\ UNCHANGED <<cur, fr, dc, rt, bench, hk, pf, pools>> /\ Quiet
    [] E.ev = "opdev" -> (C["dv"] # "" /\ (IF C["dv"] # "" THEN dc[C["dv"]].known ELSE FALSE) => <<E.c, E.cd>> = <<dc[C["dv"]].t, dc[C["dv"]].d>> /\ <<E.m, E.md>> = Mem(dc[C["dv"]])) /\ Same /\ Quiet
    [] E.ev = "job" -> E.in = Nothing /\ Same /\ Quiet
    [] E.ev = "switch" -> Switch
    [] E.ev = "dnew" -> IF E.bare THEN E.err = "" /\ SetDc(E.o, [t |-> "", d |-> 0, h |-> 0, known |-> FALSE]) /\ Quiet
                        ELSE IF ~Known(E.ty) THEN E.err = "ts" /\ Same /\ Quiet
                        ELSE E.err = "" /\ SetDc(E.o, Made(E.ty, E.d)) /\ Log(MadeLog(E.ty, E.d))
    [] E.ev = "dinit" -> IF ~Known(E.ty) THEN E.err = "ts" /\ Same /\ Quiet
                         ELSE IF E.hit THEN E.err = "ts" /\ Managed(E.ty) /\ SetDc(E.o, [Made(E.ty, E.d) EXCEPT !.h = 0]) /\ Log(Fin(E.o) \o <<[a |-> "XI", h |-> 0, t |-> E.ty, d |-> E.d]>>)
                         ELSE E.err = "" /\ SetDc(E.o, Made(E.ty, E.d)) /\ Log(Fin(E.o) \o MadeLog(E.ty, E.d))
    [] E.ev = "dfin" -> SetDc(E.o, [dc[E.o] EXCEPT !.h = 0]) /\ Log(Fin(E.o))
    [] E.ev = "dact" -> Log(Ask(IF E.act THEN "A" ELSE "S", E.o)) /\ Same
    [] E.ev = "ddrop" -> dc' = Del(dc, {E.o}) /\ Log(Fin(E.o)) /\ UNCHANGED <<cur, fr, rt, bench, hk, pf, gr, pools>>
    [] E.ev = "dmove" -> /\ dc' = Put(Put(dc, E.to, dc[E.o]), E.o, [dc[E.o] EXCEPT !.h = 0, !.known = FALSE])
                         /\ Log(Fin(E.to)) /\ UNCHANGED <<cur, fr, rt, bench, hk, pf, gr, pools>>
    [] E.ev = "rnew" -> SetRt(E.o, [n |-> IF E.env THEN Threads(E.n, procs) ELSE 4, fl |-> E.mem, dy |-> E.mem]) /\ Quiet
    [] E.ev = "rset" -> SetRt(E.o, [rt[E.o] EXCEPT !.n = Threads(E.n, procs)]) /\ Quiet
    [] E.ev = "rclone" -> E.own /\ SetRt(E.to, rt[E.o]) /\ Quiet
    [] E.ev = "rbind" -> E.same /\ SetRt(E.o, IF E.fl THEN [rt[E.o] EXCEPT !.fl = E.have] ELSE [rt[E.o] EXCEPT !.dy = E.have]) /\ Quiet
    [] E.ev = "rdrop" -> rt' = Del(rt, {E.o}) /\ UNCHANGED <<cur, fr, dc, bench, hk, pf, gr, pools>> /\ Quiet
    [] E.ev = "rswap" -> rt' = [rt EXCEPT ![E.o] = rt[E.from], ![E.from] = rt[E.o]] /\ UNCHANGED <<cur, fr, dc, bench, hk, pf, gr, pools>> /\ Quiet
    [] E.ev = "mk" -> /\ hk' = (IF E.k = "hk" THEN Put(hk, E.o, <<0, 0>>) ELSE hk) /\ pf' = (IF E.k = "pf" THEN Put(pf, E.o, 0) ELSE pf)
                      /\ gr' = (IF E.k = "gr" THEN Put(gr, E.o, 0) ELSE gr) /\ pools' = (IF E.k = "tp" THEN pools \cup {E.o} ELSE pools)
                      /\ UNCHANGED <<cur, fr, dc, rt, bench>> /\ Quiet
    [] E.ev = "wnew" -> Bench(E.ty, IF E.deft THEN 4 ELSE Threads(E.n, procs))
    [] E.ev = "wclone" -> Bench(dc[bench[E.from].dv].t, rt[bench[E.from].rt].n)
    [] E.ev = "wdrop" -> Log(Fin(bench[E.o].dv)) /\ DropBench(E.o)
TraceInit == Init0(T) /\ nh = 0 /\ l = 1 /\ procs = 0
Plain == {"reset", "end", "done"}
TraceNext ==
  \/ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1 /\ procs' = E.procs /\ nh' = E.h /\ cur' = [t \in T |-> Nothing] /\ fr' = [t \in T |-> <<>>]
        /\ dc' = NoMap /\ rt' = NoMap /\ bench' = NoMap /\ hk' = NoMap /\ pf' = NoMap /\ gr' = NoMap /\ pools' = {} /\ hs' = NoMap
  \/ l <= Len(Trace) /\ E.ev = "end" /\ l' = l + 1 /\ Same /\ UNCHANGED procs /\ E.live = 0 /\ Requests(E.log) /\ hs' = NoMap
  \/ l <= Len(Trace) /\ E.ev = "done" /\ l' = l + 1 /\ UNCHANGED <<vars, procs>>
  \/ l <= Len(Trace) /\ E.ev \notin Plain /\ l' = l + 1 /\ UNCHANGED procs /\ Body /\ (IF Obs THEN TRUE ELSE FALSE)
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
