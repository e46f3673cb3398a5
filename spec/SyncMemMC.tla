----------------------------- MODULE SyncMemMC -----------------------------
(* With ghosts: the value written last to each memory, and whether its writer*)
(* has broadcast since.                                                      *)
EXTENDS SyncMem
CONSTANTS Mems, Handles, Devices, Values
VARIABLES latest, dirty
all == <<mem, han, latest, dirty>>
Next ==
  \/ \E h \in Handles, g \in Mems, d \in Devices, c \in Values : New(h, g, d, c) /\ latest' = Put(latest, g, c) /\ dirty' = Put(dirty, g, FALSE)
  \/ \E h \in DOMAIN han, to \in Handles, d \in Devices : View(h, to, d) /\ UNCHANGED <<latest, dirty>>
  \/ \E h \in DOMAIN han, to \in Handles : Copy(h, to) /\ UNCHANGED <<latest, dirty>>
     \* whoever writes either has the only copy or must broadcast before anybody else looks
  \/ \E h \in DOMAIN han, c \in Values : ~dirty[han[h].g] /\ Write(h, c) /\ latest' = [latest EXCEPT ![han[h].g] = c]
                                         /\ dirty' = [dirty EXCEPT ![han[h].g] = Cardinality(DOMAIN mem[han[h].g]) > 1]
  \/ \E h \in DOMAIN han : (dirty[han[h].g] => Here(h) = latest[han[h].g]) /\ Broadcast(h) /\ dirty' = [dirty EXCEPT ![han[h].g] = FALSE] /\ UNCHANGED latest
  \/ \E h \in DOMAIN han : Forget({h}) /\ LET gone == DOMAIN latest \ DOMAIN mem' IN latest' = Drop(latest, gone) /\ dirty' = Drop(dirty, gone)
Spec == Init /\ latest = <<>> /\ dirty = <<>> /\ [][Next]_all
CopyExists == \A h \in DOMAIN han : han[h].g \in DOMAIN mem /\ Has(han[h].g, han[h].d)
\* once broadcast, everybody sees the value written last
Fresh == \A h \in DOMAIN han : ~dirty[han[h].g] => Here(h) = latest[han[h].g]
FreshEverywhere == \A h \in DOMAIN han, d \in Devices : ~dirty[han[h].g] => Seen(h, d) = latest[han[h].g]
=============================================================================
