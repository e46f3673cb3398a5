----------------------------- MODULE TracePool -----------------------------
(* Recorded use of the real pool.  Task states: "given" (run() entered),     *)
(* "run", "done" (body ended), "over" (callback made).                       *)
EXTENDS Integers, Sequences, FiniteSets, TraceUtil, TLC
VARIABLES l, n,       \* pool size, -1: none
          task,       \* function task -> [s: state, sig: worker, cb: BOOLEAN]
          sub,        \* tasks whose submission has returned
          waits,      \* who -> tasks its join must wait for
          loops       \* id -> [b, e, seen: set of <<b, e>> parts]
vars == <<l, n, task, sub, waits, loops>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Finished(t) == IF task[t].cb THEN task[t].s = "over" ELSE task[t].s \in {"done", "over"}
Running == {t \in DOMAIN task : task[t].s = "run"}

Init == l = 1 /\ n = -1 /\ task = <<>> /\ sub = {} /\ waits = <<>> /\ loops = <<>>
Pool == Is("pool") /\ n = -1 /\ n' = E.n /\ task' = <<>> /\ sub' = {} /\ waits' = <<>> /\ UNCHANGED loops
Give == Is("give") /\ n >= 0 /\ E.t \notin DOMAIN task
        /\ task' = Put(task, E.t, [s |-> "given", sig |-> -1, cb |-> E.cb]) /\ UNCHANGED <<n, sub, waits, loops>>
Given == Is("given") /\ E.t \in DOMAIN task /\ sub' = sub \cup {E.t} /\ UNCHANGED <<n, task, waits, loops>>
        /\ (n = 0 => Finished(E.t))
Start == Is("start") /\ E.t \in DOMAIN task /\ task[E.t].s = "given"
         /\ Cardinality(Running) < (IF n = 0 THEN 1 ELSE n)
         /\ E.sig >= 0 /\ E.sig < (IF n = 0 THEN 1 ELSE n) /\ (\A t \in Running : task[t].sig # E.sig)
         /\ task' = [task EXCEPT ![E.t].s = "run", ![E.t].sig = E.sig] /\ UNCHANGED <<n, sub, waits, loops>>
End == Is("end") /\ E.t \in DOMAIN task /\ task[E.t].s = "run"
       /\ task' = [task EXCEPT ![E.t].s = "done"] /\ UNCHANGED <<n, sub, waits, loops>>
Callback == Is("cb") /\ E.t \in DOMAIN task /\ task[E.t].s = "done" /\ task[E.t].cb /\ E.sig = task[E.t].sig
            /\ task' = [task EXCEPT ![E.t].s = "over"] /\ UNCHANGED <<n, sub, waits, loops>>
JoinCall == Is("join0") /\ waits' = Put(waits, E.who, sub) /\ UNCHANGED <<n, task, sub, loops>>
JoinRet == Is("join1") /\ (\A t \in waits[E.who] : Finished(t))
           /\ UNCHANGED <<n, task, sub, waits, loops>>
Destroy == Is("destroy0") /\ n >= 0 /\ UNCHANGED <<n, task, sub, waits, loops>>
Gone == Is("gone") /\ n >= 0 /\ (\A t \in DOMAIN task : Finished(t)) /\ n' = -1 /\ UNCHANGED <<task, sub, waits, loops>>
---------------------------------------------------------------------------
\* an ordered list of parts covers b..e-1 exactly, none empty
Partition(ps, b, e) == /\ \A i \in 1 .. Len(ps) : ps[i][1] < ps[i][2]
                       /\ IF e <= b THEN ps = <<>>
                          ELSE /\ Len(ps) > 0 /\ ps[1][1] = b /\ ps[Len(ps)][2] = e
                               /\ \A i \in 1 .. Len(ps) - 1 : ps[i][2] = ps[i + 1][1]
Bins == Is("bins") /\ Partition(E.res, E.b, E.e) /\ Len(E.res) <= (IF E.n < 1 THEN 1 ELSE E.n)
        /\ UNCHANGED <<n, task, sub, waits, loops>>
LoopCall == Is("loop0") /\ E.id \notin DOMAIN loops /\ loops' = Put(loops, E.id, [b |-> E.b, e |-> E.e, parts |-> {}, sigs |-> {}])
            /\ UNCHANGED <<n, task, sub, waits>>
PartBegin == Is("part0") /\ E.id \in DOMAIN loops
             /\ E.sig \notin loops[E.id].sigs                       \* one part per worker at a time
             /\ loops' = [loops EXCEPT ![E.id].sigs = @ \cup {E.sig}] /\ UNCHANGED <<n, task, sub, waits>>
PartEnd == Is("part") /\ E.id \in DOMAIN loops
           /\ (E.b >= E.e \/ (\A q \in loops[E.id].parts : (q[1] >= q[2] \/ q[2] <= E.b \/ E.e <= q[1])))     \* disjoint from those seen
           /\ loops' = [loops EXCEPT ![E.id].parts = @ \cup {<<E.b, E.e>>}, ![E.id].sigs = @ \ {E.sig}]
           /\ UNCHANGED <<n, task, sub, waits>>
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET q == CHOOSE q \in S : TRUE IN (q[2] - q[1]) + SumLen(S \ {q})
LoopRet == Is("loop1") /\ E.id \in DOMAIN loops
           /\ LET x == loops[E.id]  N == {q \in x.parts : q[1] < q[2]} IN
              /\ \A q \in N : x.b <= q[1] /\ q[2] <= x.e
              /\ SumLen(N) = (IF x.e > x.b THEN x.e - x.b ELSE 0)
              /\ x.sigs = {}
           /\ loops' = [i \in DOMAIN loops \ {E.id} |-> loops[i]] /\ UNCHANGED <<n, task, sub, waits>>
Next == Pool \/ Give \/ Given \/ Start \/ End \/ Callback \/ JoinCall \/ JoinRet \/ Destroy \/ Gone
        \/ Bins \/ LoopCall \/ PartBegin \/ PartEnd \/ LoopRet
TraceSpec == Init /\ [][Next]_vars
=============================================================================
