---------------------------- MODULE TraceMemPool ----------------------------
(* Recorded histories of pools and of plain device memory; every line has the*)
(* device requests made (hard), the content of every handle and object.      *)
EXTENDS MemPool, TraceUtil
VARIABLES l, obj        \* obj: object -> [d, b, n, tag, v]: plain device memory, v leading bytes have value tag
tv == <<blk, pool, han, obj, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1
H == E.hard
Asked == {i \in 1..Len(H) : H[i].k = "a"}
Freed == {H[i].b : i \in {i \in 1..Len(H) : H[i].k = "f"}}
\* only well-formed requests: each block returned once, to its device, with nothing written behind its end
Sane == \A i \in 1..Len(H) : /\ H[i].k \in {"a", "f"}
                             /\ (H[i].k = "f" => H[i].b \in DOMAIN blk \cup {H[j].b : j \in Asked} /\ \A j \in 1..Len(H) : (j # i /\ H[j].k = "f") => H[j].b # H[i].b)
Bytes(b) == LET f[S \in SUBSET DOMAIN b] == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN b[x].n + f[S \ {x}] IN f[DOMAIN b]
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x].n + Total(f, S \ {x})
Obs == /\ Sane
       /\ DOMAIN blk' = (DOMAIN blk \cup {H[i].b : i \in Asked}) \ Freed
       /\ E.held = Total(blk', DOMAIN blk')
       /\ Len(E.obs) = Cardinality(DOMAIN han')
       /\ \A i \in 1..Len(E.obs) : LET o == E.obs[i] h == han'[o.m] IN o.m \in DOMAIN han' /\ o.b = h.b /\ (h.tag # 0 /\ h.n > 0 => o.got = h.tag)
       /\ Len(E.objs) = Cardinality(DOMAIN obj')
       /\ \A i \in 1..Len(E.objs) : LET o == E.objs[i] x == obj'[o.o]
                                    IN o.o \in DOMAIN obj' /\ o.b = x.b /\ o.cap = x.n /\ (x.v > 0 => o.first = x.tag /\ o.run >= x.v)
Keep == UNCHANGED obj
Quiet == H = <<>>
Alloc == LET k == E.k p == pool[k]
         IN IF E.err # "" THEN /\ E.failed /\ Asked = {} /\ AllocFail(k, E.n, Freed)
            ELSE /\ ~E.failed /\ E.size = E.n /\ E.off = 0 /\ E.d = p.d
                 /\ IF E.n = 0 THEN E.b = 0 /\ Quiet /\ AllocNone(k, E.m, E.keep)
                    ELSE IF Fits(k, E.n) # {} THEN Quiet /\ AllocReuse(k, E.m, E.n, E.b)
                    ELSE /\ Cardinality(Asked) = 1
                         /\ \A i \in Asked : H[i].b = E.b /\ H[i].d = p.d /\ AllocFresh(k, E.m, E.n, E.b, H[i].n, Freed)
DropIt == IF han[E.m].refs > 1 THEN DropMore(E.m) /\ Quiet ELSE DropLast(E.m)
\* plain memory
Asks(n) == /\ Cardinality(Asked) = 1 /\ \A i \in Asked : H[i].n = n
NewB == (CHOOSE i \in Asked : TRUE)
Fit(o, n, v) == \* o's storage is replaced by one of n bytes, v of which keep their value
  LET d == obj[o].d gone == IF obj[o].b = 0 THEN {} ELSE {obj[o].b}
  IN IF n = 0 THEN /\ Asked = {} /\ Freed = gone
                   /\ obj' = [obj EXCEPT ![o].b = 0, ![o].n = 0, ![o].v = 0] /\ blk' = Drop(blk, gone)
     ELSE /\ Asks(n) /\ Freed = gone /\ H[NewB].d = d
          /\ obj' = [obj EXCEPT ![o].b = H[NewB].b, ![o].n = n, ![o].v = v]
          /\ blk' = Put(Drop(blk, gone), H[NewB].b, [n |-> n, d |-> d])
Min2(a, b) == IF a < b THEN a ELSE b
Same(o) == Quiet /\ obj' = obj /\ blk' = blk
Emptied(o) == /\ Asked = {} /\ Freed = (IF obj[o].b = 0 THEN {} ELSE {obj[o].b})
              /\ obj' = [obj EXCEPT ![o].b = 0, ![o].n = 0, ![o].v = 0] /\ blk' = Drop(blk, Freed)
Lose(o) == /\ Asked = {} /\ Freed = (IF obj[o].b = 0 THEN {} ELSE {obj[o].b}) /\ blk' = Drop(blk, Freed)
HNew == /\ IF E.n = 0 THEN Quiet /\ blk' = blk /\ obj' = Put(obj, E.o, [d |-> E.d, b |-> 0, n |-> 0, tag |-> 0, v |-> 0])
           ELSE /\ Asks(E.n) /\ Freed = {} /\ H[NewB].d = E.d
                /\ blk' = Put(blk, H[NewB].b, [n |-> E.n, d |-> E.d])
                /\ obj' = Put(obj, E.o, [d |-> E.d, b |-> H[NewB].b, n |-> E.n, tag |-> 0, v |-> 0])
        /\ UNCHANGED <<pool, han>>
HChange == LET o == E.o x == obj[o] n == E.n
           IN /\ UNCHANGED <<pool, han>>
              /\ IF E.err # "" THEN E.failed /\ (IF E.ev = "hresize" THEN IF Quiet THEN Same(o) ELSE Emptied(o) ELSE Same(o))
                 ELSE /\ ~E.failed
                      /\ CASE E.ev = "hresize" -> IF n = x.n THEN Same(o) ELSE Fit(o, n, 0)
                           [] E.ev = "hexpect" -> IF n <= x.n THEN Same(o) ELSE Fit(o, n, x.v)
                           [] E.ev = "hshrink" -> IF n >= x.n THEN Same(o) ELSE Fit(o, n, Min2(x.v, n))
TraceInit == Init /\ l = 1 /\ obj = <<>>
Body ==
  CASE E.ev = "new" -> New(E.k, E.kind, E.d) /\ Keep /\ Quiet
    [] E.ev = "alloc" -> Alloc /\ Keep
    [] E.ev = "write" -> Write(E.m, E.tag) /\ Keep /\ Quiet
    [] E.ev = "share" -> Share(E.m) /\ Keep /\ Quiet
    [] E.ev = "drop" -> E.err = "" /\ DropIt /\ Keep
    [] E.ev = "summary" -> E.sum = Total(blk, pool[E.k].free \cup pool[E.k].used) /\ UNCHANGED vars /\ Keep /\ Quiet
    [] E.ev = "release" -> /\ Keep
                           /\ IF pool[E.k].kind = 1          \* the pool itself: nobody may use its blocks any more
                              THEN /\ han' = Drop(han, Own(E.k)) /\ blk' = Drop(blk, pool[E.k].free \cup pool[E.k].used)
                                   /\ pool' = Drop(pool, {E.k})
                              ELSE Release(E.k)
    [] E.ev = "vreset" -> /\ Quiet /\ Keep /\ han' = Drop(han, Own(E.k)) /\ UNCHANGED blk
                          /\ pool' = [pool EXCEPT ![E.k].free = @ \cup pool[E.k].used, ![E.k].used = {}]
    [] E.ev = "vdispose" -> /\ Keep /\ han' = Drop(han, Own(E.k)) /\ blk' = Drop(blk, pool[E.k].free \cup pool[E.k].used)
                            /\ pool' = [pool EXCEPT ![E.k].free = {}, ![E.k].used = {}]
    [] E.ev = "vclean" -> /\ Keep /\ UNCHANGED han /\ blk' = Drop(blk, pool[E.k].free) /\ pool' = [pool EXCEPT ![E.k].free = {}]
    [] E.ev = "vdeprecated" -> Release(E.k) /\ Keep
    [] E.ev = "vmove" -> UNCHANGED vars /\ Keep /\ Quiet
    [] E.ev = "vswap" -> /\ Keep /\ Quiet /\ UNCHANGED blk
                         /\ pool' = [pool EXCEPT ![E.k] = pool[E.j], ![E.j] = pool[E.k]]
                         /\ han' = [m \in DOMAIN han |-> [han[m] EXCEPT !.k = IF @ = E.k THEN E.j ELSE IF @ = E.j THEN E.k ELSE @]]
    [] E.ev = "foreign" -> E.err # "" /\ UNCHANGED vars /\ Keep /\ Quiet
    [] E.ev = "hnew" -> HNew
    [] E.ev \in {"hresize", "hexpect", "hshrink"} -> HChange
    [] E.ev = "hdispose" -> Emptied(E.o) /\ UNCHANGED <<pool, han>>
    [] E.ev = "hdelete" -> Lose(E.o) /\ obj' = Drop(obj, {E.o}) /\ UNCHANGED <<pool, han>>
    [] E.ev = "hswap" -> /\ obj' = [obj EXCEPT ![E.o] = obj[E.p], ![E.p] = obj[E.o]] /\ Quiet /\ UNCHANGED vars
    [] E.ev = "hassign" -> /\ Lose(E.o) /\ obj' = Drop([obj EXCEPT ![E.o] = obj[E.p]], {E.p}) /\ UNCHANGED <<pool, han>>
    [] E.ev = "hmove" -> /\ Quiet /\ obj' = Drop(Put(obj, E.p, obj[E.o]), {E.o}) /\ UNCHANGED vars
    [] E.ev = "hwrite" -> /\ Quiet /\ UNCHANGED vars /\ obj' = [obj EXCEPT ![E.o].tag = E.tag, ![E.o].v = IF @ >= 0 THEN obj[E.o].n ELSE 0]
    [] E.ev = "end" -> /\ LET all == {obj[o].b : o \in DOMAIN obj} \ {0} IN Asked = {} /\ Freed = all /\ blk' = Drop(blk, all)
                       /\ obj' = <<>> /\ UNCHANGED <<pool, han>> /\ blk' = <<>>
TraceNext ==
  \/ Is("reset") /\ blk' = <<>> /\ pool' = <<>> /\ han' = <<>> /\ obj' = <<>>
  \/ l <= Len(Trace) /\ E.ev # "reset" /\ l' = l + 1 /\ Body /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
