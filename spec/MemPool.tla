------------------------------ MODULE MemPool ------------------------------
(* Recycling memory pools on a device.  Blocks are pieces of device storage  *)
(* the pool obtained; a handle is one user's piece, living in one block.     *)
(* A released block goes to the pool's free blocks and must be handed out    *)
(* again whenever it is large enough; only otherwise the device is asked.    *)
(* Releasing the pool gives its free blocks back at once, those in use when  *)
(* their last handle goes.                                                   *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES blk,     \* block -> [n: bytes, d: device]: storage obtained and not returned
          pool,    \* pool -> [d: device, free: set of blocks, used: set of blocks, kind: 0/1 recycling, 2 plain, dead: BOOLEAN]
          han      \* handle -> [k: pool, b: block or 0, n: bytes, refs: Nat, tag: last value written, 0 none]
vars == <<blk, pool, han>>

SumOf(S) == LET f[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN blk[x].n + f[T \ {x}] IN f[S]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == blk = <<>> /\ pool = <<>> /\ han = <<>>

New(k, kind, d) == /\ k \notin DOMAIN pool
                   /\ pool' = Put(pool, k, [d |-> d, free |-> {}, used |-> {}, kind |-> kind, dead |-> FALSE])
                   /\ UNCHANGED <<blk, han>>
Fits(k, n) == {b \in pool[k].free : blk[b].n >= n}
NewHandle(m, k, b, n) == Put(han, m, [k |-> k, b |-> b, n |-> n, refs |-> 1, tag |-> 0])
\* nothing asked for: no block
AllocNone(k, m, keep) == /\ han' = IF keep THEN NewHandle(m, k, 0, 0) ELSE han
                         /\ UNCHANGED <<blk, pool>>
AllocReuse(k, m, n, b) == /\ n > 0 /\ b \in Fits(k, n)
                          /\ pool' = [pool EXCEPT ![k].free = @ \ {b}, ![k].used = @ \cup {b}]
                          /\ han' = NewHandle(m, k, b, n)
                          /\ UNCHANGED blk
\* the device is asked for a block of size z; too small free blocks may be returned in exchange
AllocFresh(k, m, n, b, z, gone) == /\ n > 0 /\ Fits(k, n) = {} /\ z >= n /\ gone \subseteq pool[k].free /\ b \notin DOMAIN blk
                                   /\ blk' = Put(Drop(blk, gone), b, [n |-> z, d |-> pool[k].d])
                                   /\ pool' = [pool EXCEPT ![k].free = @ \ gone, ![k].used = @ \cup {b}]
                                   /\ han' = NewHandle(m, k, b, n)
\* the device has no more
AllocFail(k, n, gone) == /\ n > 0 /\ Fits(k, n) = {} /\ gone \subseteq pool[k].free
                         /\ blk' = Drop(blk, gone)
                         /\ pool' = [pool EXCEPT ![k].free = @ \ gone]
                         /\ UNCHANGED han
Write(m, v) == m \in DOMAIN han /\ han' = [han EXCEPT ![m].tag = v] /\ UNCHANGED <<blk, pool>>
Share(m) == m \in DOMAIN han /\ han' = [han EXCEPT ![m].refs = @ + 1] /\ UNCHANGED <<blk, pool>>
DropMore(m) == m \in DOMAIN han /\ han[m].refs > 1 /\ han' = [han EXCEPT ![m].refs = @ - 1] /\ UNCHANGED <<blk, pool>>
DropLast(m) == LET h == han[m] p == pool[h.k] gone == IF h.b # 0 /\ (p.dead \/ p.kind = 2) THEN {h.b} ELSE {}
               IN /\ h.refs = 1
                  /\ han' = Drop(han, {m})
                  /\ blk' = Drop(blk, gone)
                  /\ pool' = [pool EXCEPT ![h.k].used = @ \ {h.b}, ![h.k].free = IF gone = {} /\ h.b # 0 THEN @ \cup {h.b} ELSE @]
\* the pool goes: its free blocks are returned, those in use stay
Release(k) == /\ k \in DOMAIN pool /\ ~pool[k].dead
              /\ blk' = Drop(blk, pool[k].free)
              /\ pool' = [pool EXCEPT ![k].free = {}, ![k].dead = TRUE]
              /\ UNCHANGED han
Own(k) == {m \in DOMAIN han : han[m].k = k}

TypeOK == \A k \in DOMAIN pool : pool[k].free \cap pool[k].used = {} /\ pool[k].free \cup pool[k].used \subseteq DOMAIN blk
NoOverlap == \A m, o \in DOMAIN han : m # o /\ han[m].b # 0 => han[m].b # han[o].b
BigEnough == \A m \in DOMAIN han : han[m].b # 0 => han[m].b \in DOMAIN blk /\ blk[han[m].b].n >= han[m].n /\ han[m].b \in pool[han[m].k].used
OnePool == \A k, j \in DOMAIN pool : k # j => (pool[k].free \cup pool[k].used) \cap (pool[j].free \cup pool[j].used) = {}
Accounted == DOMAIN blk = UNION {pool[k].free \cup pool[k].used : k \in DOMAIN pool}
NoLeak == (han = <<>> /\ \A k \in DOMAIN pool : pool[k].dead) => blk = <<>>
=============================================================================
