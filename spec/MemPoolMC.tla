----------------------------- MODULE MemPoolMC -----------------------------
EXTENDS MemPool
CONSTANTS Pools, Handles, Blocks, Sizes
Next == \/ \E k \in Pools, kind \in {0, 2} : New(k, kind, 0)
        \/ \E k \in DOMAIN pool, m \in Handles \ DOMAIN han, n \in Sizes :
             /\ ~pool[k].dead
             /\ \/ \E b \in pool[k].free : AllocReuse(k, m, n, b)
                \/ \E b \in Blocks \ DOMAIN blk, g \in SUBSET pool[k].free : AllocFresh(k, m, n, b, n, g)
                \/ \E g \in SUBSET pool[k].free : AllocFail(k, n, g)
        \/ \E m \in DOMAIN han : (\E v \in {1, 2} : Write(m, v)) \/ (han[m].refs < 2 /\ Share(m)) \/ DropMore(m) \/ DropLast(m)
        \/ \E k \in DOMAIN pool : Release(k)
Spec == Init /\ [][Next]_vars
\* a block's content is its handle's until the handle goes
KeptContent == [][\A m \in DOMAIN han : m \in DOMAIN han' => han'[m].b = han[m].b]_vars
=============================================================================
