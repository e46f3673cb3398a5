------------------------------ MODULE Archive ------------------------------
(* Objects written one after another into streams, and read back.  A stream *)
(* is a sequence of objects, each taking some bytes; a copy of a stream may  *)
(* be cut anywhere.  A reader takes objects in order: one that lies wholly   *)
(* before the cut comes back equal and takes exactly its bytes, any other is *)
(* an error, after which the reader is not used again.                       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES str,     \* stream -> [items: sequence of [d: what, len: bytes], size: bytes there are]
          rdr      \* reader -> [s: stream, at: objects taken]
avars == <<str, rdr>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Init == str = <<>> /\ rdr = <<>>
RECURSIVE Bytes(_)
Bytes(q) == IF q = <<>> THEN 0 ELSE q[Len(q)].len + Bytes(SubSeq(q, 1, Len(q) - 1))
Start(s) == s \notin DOMAIN str /\ str' = Put(str, s, [items |-> <<>>, size |-> 0]) /\ UNCHANGED rdr
Write(s, d, n) == /\ n > 0 /\ str[s].size = Bytes(str[s].items)
                  /\ str' = [str EXCEPT ![s] = [items |-> Append(@.items, [d |-> d, len |-> n]), size |-> @.size + n]]
                  /\ UNCHANGED rdr
\* s becomes a copy of q that ends after n bytes
CutAt(s, q, n) == n <= str[q].size /\ str' = Put(str, s, [items |-> str[q].items, size |-> n]) /\ UNCHANGED rdr
Empty(s) == str' = Put(str, s, [items |-> <<>>, size |-> 0]) /\ UNCHANGED rdr
Open(r, s) == r \notin DOMAIN rdr /\ s \in DOMAIN str /\ rdr' = Put(rdr, r, [s |-> s, at |-> 0]) /\ UNCHANGED str
NextItem(r) == str[rdr[r].s].items[rdr[r].at + 1]
Whole(r) == LET x == str[rdr[r].s] i == rdr[r].at + 1
            IN i <= Len(x.items) /\ Bytes(SubSeq(x.items, 1, i)) <= x.size
ReadOk(r) == Whole(r) /\ rdr' = [rdr EXCEPT ![r].at = @ + 1] /\ UNCHANGED str
ReadErr(r) == ~Whole(r) /\ rdr' = Drop(rdr, r) /\ UNCHANGED str
Close(r) == rdr' = Drop(rdr, r) /\ UNCHANGED str
=============================================================================
