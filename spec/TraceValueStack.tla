-------------------------- MODULE TraceValueStack --------------------------
EXTENDS ValueStack, TraceUtil
VARIABLE l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
Err(k) == E.err = k
\* projection of the whole stack (all slots, bottom first), logged after every call
Obs == /\ E.base = base'
       /\ E.size = Len(st') - base'
       /\ E.vals = [k \in 1 .. Len(st') |-> cell'[st'[k]].v]
       /\ E.devs = [k \in 1 .. Len(st') |-> cell'[st'[k]].d]
       /\ E.cnts = [k \in 1 .. Len(st') |-> cell'[st'[k]].n]
Ok == E.err = "" /\ Obs
TraceInit == Init /\ l = 1
TraceNext ==
  \/ Is("reset") /\ st' = <<>> /\ base' = 0 /\ bases' = <<>> /\ UNCHANGED cell
  \/ Is("push") /\ Push(E.v, E.d, E.n) /\ Ok
  \/ Is("pushidx") /\ ((PushIdx(E.i) /\ Ok) \/ (BadIdx(E.i) /\ E.err # "" /\ Obs))
  \/ Is("clone") /\ ((CloneIdx(E.i, E.d) /\ Ok) \/ (BadIdx(E.i) /\ E.err # "" /\ Obs))
  \/ Is("get") /\ ((Valid(E.i) /\ UNCHANGED vars /\ E.got = cell[At(E.i)].v /\ Ok) \/ (BadIdx(E.i) /\ E.err # "" /\ Obs))
  \/ Is("top") /\ st # <<>> /\ UNCHANGED vars /\ E.got = cell[st[Len(st)]].v /\ Ok
  \/ Is("pop") /\ Pop(E.n) /\ Ok
  \/ Is("erase") /\ Erase(E.i) /\ Ok
  \/ Is("erase2") /\ EraseRange(E.b, Abs(E.e)) /\ Ok
  \/ Is("eraseall") /\ EraseRange(0, Len(st)) /\ Ok
  \/ Is("clear") /\ Clear /\ Ok
  \/ Is("rebase") /\ Rebase(E.n) /\ E.old = base /\ Ok
  \/ Is("pushbase") /\ PushBase(E.i) /\ Ok
  \/ Is("popbase") /\ PopBase /\ Ok
  \/ Is("write") /\ Write(E.i, E.v) /\ Ok
  \/ Is("swap") /\ ((Swap(E.i, E.j) /\ Ok) \/ (~(Valid(E.i) /\ Valid(E.j)) /\ E.err # "" /\ UNCHANGED vars /\ Obs))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceView == <<l, st, base, bases, cell>>
=============================================================================
