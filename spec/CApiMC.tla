------------------------------- MODULE CApiMC -------------------------------
(* Threads calling the C interface: every call clears or writes the message  *)
(* of its thread; a call may run callbacks of a plug-in, which call again.   *)
(* Tensors are handles on shared blocks of memory; a session holds what is   *)
(* bound to it after its handle is freed.  Variant: "now" is the code as it  *)
(* is, "entry" clears the message only on entering, "one" has one message    *)
(* for all threads.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Blocks, Hs, MaxDeep, Depth, Variant
VARIABLES stack,   \* thread -> sequence of frames, the innermost last
          msg,     \* thread -> message: "" or the number of the call it speaks of
          last,    \* thread -> what its last outermost call gave: [ok, id, said]
          next,    \* number of the next call
          hd,      \* handle -> block or 0
          slot,    \* what the session is bound to: block or 0
          live,    \* blocks not yet released
          val, want \* contents of blocks, and what was last written through a handle
vars == <<stack, msg, last, next, hd, slot, live, val, want>>
NoBlock == 0
M(t) == IF Variant = "one" THEN CHOOSE x \in Threads : TRUE ELSE t
Init == /\ stack = [t \in Threads |-> <<>>] /\ msg = [t \in Threads |-> 0]
        /\ last = [t \in Threads |-> [ok |-> TRUE, id |-> 0]] /\ next = 1
        /\ hd = [h \in Hs |-> NoBlock] /\ slot = NoBlock /\ live = {} /\ val = [b \in Blocks |-> 0] /\ want = [b \in Blocks |-> 0]
Top(t) == stack[t][Len(stack[t])]
\* a call begins: by the program, or by a callback of the call in progress
Enter(t) == /\ Len(stack[t]) < MaxDeep /\ (stack[t] # <<>> => Top(t).in = "callback")
            /\ stack' = [stack EXCEPT ![t] = Append(@, [id |-> next, in |-> "call", err |-> FALSE])]
            /\ msg' = [msg EXCEPT ![M(t)] = 0] /\ next' = next + 1
            /\ UNCHANGED <<last, hd, slot, live, val, want>>
SetTop(t, r) == stack' = [stack EXCEPT ![t][Len(stack[t])] = r]
\* the call runs a callback; the callback comes back well, or fails: by its value or an exception
Callback(t) == /\ stack[t] # <<>> /\ Top(t).in = "call" /\ ~Top(t).err /\ SetTop(t, [Top(t) EXCEPT !.in = "callback"])
               /\ UNCHANGED <<msg, last, next, hd, slot, live, val, want>>
CameBack(t) == /\ stack[t] # <<>> /\ Top(t).in = "callback"
               /\ \E bad \in BOOLEAN : SetTop(t, [Top(t) EXCEPT !.in = "call", !.err = bad])
               /\ UNCHANGED <<msg, last, next, hd, slot, live, val, want>>
Fault(t) == /\ stack[t] # <<>> /\ Top(t).in = "call" /\ ~Top(t).err /\ SetTop(t, [Top(t) EXCEPT !.err = TRUE])
            /\ UNCHANGED <<msg, last, next, hd, slot, live, val, want>>
\* the call returns
Return(t) == /\ stack[t] # <<>> /\ Top(t).in = "call"
             /\ LET f == Top(t) rest == SubSeq(stack[t], 1, Len(stack[t]) - 1) IN
                /\ msg' = IF f.err THEN [msg EXCEPT ![M(t)] = f.id]
                          ELSE IF Variant = "entry" THEN msg ELSE [msg EXCEPT ![M(t)] = 0]
                /\ stack' = [stack EXCEPT ![t] = rest]
                /\ last' = IF rest = <<>> THEN [last EXCEPT ![t] = [ok |-> ~f.err, id |-> f.id]] ELSE last
             /\ UNCHANGED <<next, hd, slot, live, val, want>>
\* what calls do to tensors; they are done by the thread with the call in progress
Calling(t) == stack[t] # <<>> /\ Top(t).in = "call" /\ ~Top(t).err
Refs(b, hh, s) == {h \in Hs : hh[h] = b} # {} \/ s = b
Swept(hh, s) == {b \in live : Refs(b, hh, s)}
New == \E h \in Hs, b \in Blocks \ live : hd[h] = NoBlock /\ hd' = [hd EXCEPT ![h] = b] /\ live' = live \cup {b} /\ val' = [val EXCEPT ![b] = 0] /\ want' = [want EXCEPT ![b] = 0] /\ slot' = slot
View == \E g \in Hs : \E h \in Hs \ {g} : hd[g] # NoBlock /\ hd[h] = NoBlock /\ hd' = [hd EXCEPT ![h] = hd[g]] /\ UNCHANGED <<slot, live, val, want>>
Write == \E h \in Hs : hd[h] # NoBlock /\ \E x \in 0 .. 1 : val' = [val EXCEPT ![hd[h]] = x] /\ want' = [want EXCEPT ![hd[h]] = x] /\ UNCHANGED <<hd, slot, live>>
Bind == \E h \in Hs : hd[h] # NoBlock /\ slot' = hd[h] /\ live' = Swept(hd, hd[h]) /\ UNCHANGED <<hd, val, want>>
Free == \E h \in Hs : hd[h] # NoBlock /\ hd' = [hd EXCEPT ![h] = NoBlock] /\ live' = Swept([hd EXCEPT ![h] = NoBlock], slot) /\ UNCHANGED <<slot, val, want>>
Tensors(t) == Calling(t) /\ (New \/ View \/ Write \/ Bind \/ Free) /\ UNCHANGED <<stack, msg, last, next>>
Next == \E t \in Threads : Enter(t) \/ Callback(t) \/ CameBack(t) \/ Fault(t) \/ Return(t) \/ Tensors(t)
Spec == Init /\ [][Next]_vars
Bounded == TLCGet("level") <= Depth
------------------------------------------------------------------------------
\* a thread at rest sees the message of its last call when that failed, and none when it did not
Messages == \A t \in Threads : stack[t] = <<>> => msg[M(t)] = IF last[t].ok THEN 0 ELSE last[t].id
\* what a handle or a session looks at is there, and nothing else is
Held == /\ \A h \in Hs : hd[h] # NoBlock => hd[h] \in live
        /\ slot # NoBlock => slot \in live
        /\ \A b \in live : Refs(b, hd, slot)
Values == \A b \in live : val[b] = want[b]
=============================================================================
