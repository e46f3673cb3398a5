------------------------------ MODULE SyncLock ------------------------------
(* The locking around one memory's table of copies.  A reader-writer lock:  *)
(* a waiting writer keeps new readers out, the last reader or the leaving   *)
(* writer lets the next in.  A thread that wants a copy looks under the read*)
(* lock, gives it up, takes the write lock, looks AGAIN (it was unprotected *)
(* in between) and only then makes the copy.  Checked: readers and writers  *)
(* exclude each other, every copy is made once, nobody waits for ever.      *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Keys, Recheck
VARIABLES pc, key, readers, pending, writing, table, made
vars == <<pc, key, readers, pending, writing, table, made>>
Init == /\ pc = [t \in Threads |-> "idle"] /\ key \in [Threads -> Keys]
        /\ readers = 0 /\ pending = 0 /\ writing = FALSE
        /\ table = {} /\ made = [k \in Keys |-> 0]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
StartRead(t) == pc[t] = "idle" /\ pending = 0 /\ readers' = readers + 1 /\ Go(t, "looking") /\ UNCHANGED <<key, pending, writing, table, made>>
Found(t) == pc[t] = "looking" /\ key[t] \in table /\ readers' = readers - 1 /\ Go(t, "done") /\ UNCHANGED <<key, pending, writing, table, made>>
Miss(t) == pc[t] = "looking" /\ key[t] \notin table /\ readers' = readers - 1 /\ Go(t, "between") /\ UNCHANGED <<key, pending, writing, table, made>>
AskWrite(t) == pc[t] = "between" /\ pending' = pending + 1 /\ Go(t, "queued") /\ UNCHANGED <<key, readers, writing, table, made>>
StartWrite(t) == pc[t] = "queued" /\ readers = 0 /\ ~writing /\ writing' = TRUE /\ Go(t, "writing") /\ UNCHANGED <<key, readers, pending, table, made>>
Make(t) == /\ pc[t] = "writing" /\ Go(t, "made")
           /\ IF Recheck /\ key[t] \in table THEN UNCHANGED <<table, made>>
              ELSE table' = table \cup {key[t]} /\ made' = [made EXCEPT ![key[t]] = @ + 1]
           /\ UNCHANGED <<key, readers, pending, writing>>
EndWrite(t) == pc[t] = "made" /\ pending' = pending - 1 /\ writing' = FALSE /\ Go(t, "done") /\ UNCHANGED <<key, readers, table, made>>
Next == \/ \E t \in Threads : StartRead(t) \/ Found(t) \/ Miss(t) \/ AskWrite(t) \/ StartWrite(t) \/ Make(t) \/ EndWrite(t)
        \/ (\A t \in Threads : pc[t] = "done") /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Writers == {t \in Threads : pc[t] \in {"writing", "made"}}
Exclusive == /\ Cardinality(Writers) <= 1 /\ (Writers # {} => readers = 0)
             /\ readers = Cardinality({t \in Threads : pc[t] = "looking"})
             /\ pending = Cardinality({t \in Threads : pc[t] \in {"queued", "writing", "made"}})
Once == \A k \in Keys : made[k] <= 1
AllDone == \A t \in Threads : pc[t] = "done"
Finishes == <>AllDone
=============================================================================
