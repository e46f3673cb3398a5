------------------------------ MODULE ArchiveMC ------------------------------
(* Small archives: every way of writing, cutting and reading.               *)
EXTENDS Archive, TLC
CONSTANTS Streams, Readers, What, Depth
VARIABLES log,     \* stream -> what was ever written to it (or to what it was copied from)
          got      \* reader -> what it read
vars == <<avars, log, got>>
MCInit == Init /\ log = <<>> /\ got = <<>>
MCNext ==
  \/ \E s \in Streams : Start(s) /\ log' = Put(log, s, <<>>) /\ UNCHANGED got
  \/ \E s \in DOMAIN str, d \in What, n \in 1..2 : Write(s, d, n) /\ log' = [log EXCEPT ![s] = Append(@, d)] /\ UNCHANGED got
  \/ \E s \in Streams, q \in DOMAIN str : (s \notin DOMAIN str) /\ (\E n \in 0..str[q].size : CutAt(s, q, n)) /\ log' = Put(log, s, log[q]) /\ UNCHANGED got
  \/ \E r \in Readers, s \in DOMAIN str : Open(r, s) /\ (r \notin DOMAIN got) /\ got' = Put(got, r, <<>>) /\ UNCHANGED log
  \/ \E r \in DOMAIN rdr : ReadOk(r) /\ got' = [got EXCEPT ![r] = Append(@, NextItem(r).d)] /\ UNCHANGED log
  \/ \E r \in DOMAIN rdr : ReadErr(r) /\ UNCHANGED <<log, got>>
Spec == MCInit /\ [][MCNext]_vars
Bounded == TLCGet("level") <= Depth
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* what was read is what was written first, in order; nothing beyond the cut was
ReadsAreWrites == \A r \in DOMAIN rdr : /\ Prefix(got[r], log[rdr[r].s])
                                        /\ LET x == str[rdr[r].s] IN Bytes(SubSeq(x.items, 1, rdr[r].at)) <= x.size
Sizes == \A s \in DOMAIN str : str[s].size <= Bytes(str[s].items)
=============================================================================
