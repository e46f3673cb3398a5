------------------------------ MODULE SyncMem ------------------------------
(* One memory used from several devices.  A memory has a copy on some of the *)
(* devices; a handle belongs to one memory and one device.  Viewing it on a  *)
(* device makes a copy there if there is none.  Broadcasting through a handle*)
(* makes its device's copy the authoritative one: all other copies go, and   *)
(* the handles on them must not be used any more.                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES mem,    \* memory -> [device -> content]
          han     \* handle -> [g: memory, d: device]
vars == <<mem, han>>
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == mem = <<>> /\ han = <<>>
Has(g, d) == d \in DOMAIN mem[g]
Here(h) == mem[han[h].g][han[h].d]
New(h, g, d, c) == /\ g \notin DOMAIN mem /\ h \notin DOMAIN han
                   /\ mem' = Put(mem, g, [x \in {d} |-> c]) /\ han' = Put(han, h, [g |-> g, d |-> d])
Seen(h, d) == IF Has(han[h].g, d) THEN mem[han[h].g][d] ELSE Here(h)
View(h, to, d) == /\ to \notin DOMAIN han
                  /\ mem' = [mem EXCEPT ![han[h].g] = Put(@, d, Seen(h, d))]
                  /\ han' = Put(han, to, [g |-> han[h].g, d |-> d])
Copy(h, to) == to \notin DOMAIN han /\ han' = Put(han, to, han[h]) /\ UNCHANGED mem
Write(h, c) == mem' = [mem EXCEPT ![han[h].g][han[h].d] = c] /\ UNCHANGED han
Others(h) == {x \in DOMAIN han : han[x].g = han[h].g /\ han[x].d # han[h].d}
Broadcast(h) == /\ mem' = [mem EXCEPT ![han[h].g] = [x \in {han[h].d} |-> Here(h)]]
                /\ han' = Drop(han, Others(h))
Forget(S) == LET left == Drop(han, S) IN han' = left /\ mem' = Drop(mem, {g \in DOMAIN mem : \A h \in DOMAIN left : left[h].g # g})
=============================================================================
