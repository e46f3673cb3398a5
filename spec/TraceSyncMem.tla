---------------------------- MODULE TraceSyncMem ----------------------------
EXTENDS SyncMem, TraceUtil
VARIABLES l, place,     \* <<memory, device>> -> where its parts are stored
          info          \* memory -> [n: bytes of a part, parts: Nat, pooled: BOOLEAN]
tv == <<mem, han, l, place, info>>
E == Trace[l]
H == E.hard
Convs == SelectSeq(H, LAMBDA x : x.k = "c")
Asked == {i \in 1..Len(H) : H[i].k = "a"}
Clean == \A i \in 1..Len(H) : H[i].k \in {"a", "f", "c"}
Ours(d) == d # 0
\* what every handle sees and where
Obs == /\ Clean
       /\ Len(E.obs) = Cardinality(DOMAIN han')
       /\ \A i \in 1..Len(E.obs) : LET o == E.obs[i] h == han'[o.h]
                                   IN /\ o.h \in DOMAIN han' /\ o.d = h.d /\ o.c = mem'[h.g][h.d]
                                      /\ o.w = place'[<<h.g, h.d>>]
       /\ \A i, j \in 1..Len(E.obs) : LET a == E.obs[i] b == E.obs[j]
                                      IN (han'[a.h].g # han'[b.h].g \/ a.d # b.d) => {a.w[k] : k \in 1..Len(a.w)} \cap {b.w[k] : k \in 1..Len(b.w)} = {}
WhereOf(h) == LET i == CHOOSE i \in 1..Len(E.obs) : E.obs[i].h = h IN E.obs[i].w
Settle(h) == place' = Put(place, <<han'[h].g, han'[h].d>>, WhereOf(h))
NoCopy == Convs = <<>>
\* the copy to d was made by copying every part once, whole, from the handle's device
CopiedTo(g, from, d, times) ==
  IF from = 0 /\ d = 0 THEN TRUE
  ELSE /\ Len(Convs) = times * info[g].parts
       /\ \A i \in 1..Len(Convs) : Convs[i].b = d /\ Convs[i].d = from /\ Convs[i].n = info[g].n
Min2(a, b) == IF a < b THEN a ELSE b
Overlay(c, at, v) == [i \in 1..Len(c) |-> IF i > at /\ i <= at + Len(v) THEN v[i - at] ELSE c[i]]
Part1(g) == info[g].n
SameMaps == UNCHANGED <<place, info>>
Body ==
  CASE E.ev = "new" -> /\ New(E.h, E.g, E.d, E.c) /\ info' = Put(info, E.g, [n |-> E.n, parts |-> E.parts, pooled |-> E.pooled])
                       /\ Len(E.c) = E.n * E.parts /\ Settle(E.h)
    [] E.ev = "view" -> LET g == han[E.h].g
                        IN /\ E.err = "" /\ View(E.h, E.to, E.d) /\ UNCHANGED info
                           /\ IF Has(g, E.d) THEN /\ H = <<>> /\ UNCHANGED place
                              ELSE CopiedTo(g, han[E.h].d, E.d, 1) /\ Settle(E.to)
    [] E.ev = "copy" -> Copy(E.h, E.to) /\ H = <<>> /\ SameMaps
    [] E.ev = "write" -> Write(E.h, E.c) /\ H = <<>> /\ SameMaps
    [] E.ev = "broadcast" -> /\ Broadcast(E.h) /\ NoCopy /\ SameMaps /\ Asked = {}
                             /\ {E.gone[i] : i \in 1..Len(E.gone)} = Others(E.h)
    [] E.ev = "drop" -> Forget({E.h}) /\ NoCopy /\ SameMaps /\ Asked = {}
    [] E.ev = "forget" -> Forget({E.hs[i] : i \in 1..Len(E.hs)}) /\ SameMaps
    [] E.ev = "memcpy" -> LET a == han[E.h] b == han[E.src] n == E.n
                          IN IF E.oa + n > info[a.g].n \/ E.ob + n > info[b.g].n
                             THEN E.err # "" /\ UNCHANGED vars /\ SameMaps /\ H = <<>>
                             ELSE /\ E.err = "" /\ SameMaps
                                  /\ Write(E.h, Overlay(Here(E.h), E.oa, SubSeq(Here(E.src), E.ob + 1, E.ob + n)))
                                  /\ IF a.d = 0 /\ b.d = 0 THEN H = <<>> ELSE Len(H) = 1 /\ Convs = H /\ H[1].b = a.d /\ H[1].d = b.d /\ H[1].n = n
    [] E.ev = "memset" -> LET a == han[E.h] b == han[E.src]
                          IN /\ SameMaps /\ E.err = "" /\ Convs = H
                             /\ Write(E.h, IF E.m = 0 THEN Here(E.h) ELSE Overlay(Here(E.h), E.oa, [i \in 1..E.n |-> Here(E.src)[(E.ob + 1) + ((i - 1) % E.m)]]))
                             /\ \A i \in 1..Len(H) : H[i].b = a.d /\ H[i].d = (IF i = 1 THEN b.d ELSE a.d)
    [] E.ev = "race" -> LET devs == {E.ds[i] : i \in 1..Len(E.ds)} fresh == devs \ {E.d}
                        IN /\ mem' = Put(mem, E.g, [x \in devs \cup {E.d} |-> E.c])
                           /\ han' = [x \in DOMAIN han \cup {E.h} \cup {E.to[i] : i \in 1..Len(E.to)} |->
                                        IF x = E.h THEN [g |-> E.g, d |-> E.d]
                                        ELSE IF x \in DOMAIN han THEN han[x]
                                        ELSE [g |-> E.g, d |-> E.ds[CHOOSE i \in 1..Len(E.to) : E.to[i] = x]]]
                           /\ info' = Put(info, E.g, [n |-> E.n, parts |-> 1, pooled |-> FALSE])
                           /\ place' = [p \in DOMAIN place \cup {<<E.g, d>> : d \in devs \cup {E.d}} |->
                                          IF p[1] # E.g THEN place[p]
                                          ELSE IF p[2] = E.d THEN WhereOf(E.h) ELSE WhereOf(E.to[CHOOSE i \in 1..Len(E.ds) : E.ds[i] = p[2]])]
                           \* one copy per device, however many ask
                           /\ Cardinality({i \in 1..Len(H) : H[i].k = "c"}) = Cardinality(fresh)
                           /\ {H[i].b : i \in {i \in 1..Len(H) : H[i].k = "c"}} = fresh
    [] E.ev = "table" -> \* a table of copies used by several threads: SyncLock's Exclusive and Once, and all see the same copies
                         LET asked == {E.saw[i].k : i \in 1..Len(E.saw)}
                             copy(k) == IF k = E.own THEN 7 ELSE 700 + k
                         IN /\ UNCHANGED vars /\ SameMaps /\ H = <<>> /\ E.clash = 0
                            /\ Len(E.made) = Cardinality(asked \ {E.own})
                            /\ {E.made[i] : i \in 1..Len(E.made)} = {(E.own * 10) + k : k \in asked \ {E.own}}
                            /\ \A i, j \in 1..Len(E.saw) : (E.saw[i].k = E.saw[j].k) = (E.saw[i].p = E.saw[j].p)
                            /\ \A i \in 1..Len(E.saw) : E.saw[i].v = copy(E.saw[i].k)
                            /\ Len(E.all) = 2 * Cardinality(asked \cup {E.own})
                            /\ {<<E.all[(2 * i) - 1], E.all[2 * i]>> : i \in 1..(Len(E.all) \div 2)} = {<<k, copy(k)>> : k \in asked \cup {E.own}}
    [] E.ev = "end" -> E.held = 0 /\ E.bad = 0 /\ UNCHANGED vars /\ SameMaps
TraceInit == Init /\ l = 1 /\ place = <<>> /\ info = <<>>
TraceNext ==
  \/ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1 /\ mem' = <<>> /\ han' = <<>> /\ place' = <<>> /\ info' = <<>>
  \/ l <= Len(Trace) /\ E.ev = "end" /\ l' = l + 1 /\ Body
  \/ l <= Len(Trace) /\ E.ev \notin {"reset", "end"} /\ l' = l + 1 /\ Body /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
