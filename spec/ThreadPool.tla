----------------------------- MODULE ThreadPool -----------------------------
(* The worker pool at the grain of its critical sections.  Each worker owns  *)
(* a mutex, a condition and a one-task slot; the pool owns a mutex-protected *)
(* list of free workers.  One client submits tasks 1..T, may wait for all,   *)
(* and destroys the pool.  Stop is the worker's stop step: with              *)
(* LockedStop = FALSE it is done without the worker's mutex and without      *)
(* waiting for its task (the code before the repair).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS W,          \* number of workers (ids 0..W-1)
          T,          \* number of tasks
          LockedStop
Worker == 0 .. W - 1
Task == 1 .. T

VARIABLES
  mtx,      \* worker -> "free" | "worker" | "client": who holds its task mutex
  slot,     \* worker -> task in its slot, 0 if none
  wpc,      \* worker -> "start" | "check" | "waiting" | "run" | "after" | "clear" | "exit"
  alive,    \* worker -> is_running
  free,     \* sequence of free workers (front first)
  cpc,      \* client: <<what, detail>>
  given,    \* tasks submitted so far (a counter)
  started, ended, called   \* history: per task number of starts, ends, callbacks
vars == <<mtx, slot, wpc, alive, free, cpc, given, started, ended, called>>

Init == /\ mtx = [w \in Worker |-> "free"] /\ slot = [w \in Worker |-> 0]
        /\ wpc = [w \in Worker |-> "start"] /\ alive = [w \in Worker |-> TRUE]
        /\ free = [i \in 1 .. W |-> i - 1] /\ cpc = <<"idle", 0>> /\ given = 0
        /\ started = [t \in Task |-> 0] /\ ended = [t \in Task |-> 0] /\ called = [t \in Task |-> 0]

CanLock(w) == mtx[w] = "free"
---------------------------------------------------------------------------
\* worker
Enter(w) == wpc[w] = "start" /\ CanLock(w) /\ mtx' = [mtx EXCEPT ![w] = "worker"] /\ wpc' = [wpc EXCEPT ![w] = "check"]
            /\ UNCHANGED <<slot, alive, free, cpc, given, started, ended, called>>
Check(w) == /\ wpc[w] = "check"
            /\ \/ ~alive[w] /\ wpc' = [wpc EXCEPT ![w] = "exit"] /\ mtx' = [mtx EXCEPT ![w] = "free"]
               \/ alive[w] /\ slot[w] = 0 /\ wpc' = [wpc EXCEPT ![w] = "towait"] /\ mtx' = mtx
               \/ alive[w] /\ slot[w] # 0 /\ wpc' = [wpc EXCEPT ![w] = "run"] /\ mtx' = mtx
            /\ UNCHANGED <<slot, alive, free, cpc, given, started, ended, called>>
\* between the check and the wait the mutex is still held; waiting releases it
Wait(w) == wpc[w] = "towait" /\ wpc' = [wpc EXCEPT ![w] = "waiting"] /\ mtx' = [mtx EXCEPT ![w] = "free"]
           /\ UNCHANGED <<slot, alive, free, cpc, given, started, ended, called>>
\* a notified worker re-acquires the mutex
Wake(w) == wpc[w] = "woken" /\ CanLock(w) /\ mtx' = [mtx EXCEPT ![w] = "worker"] /\ wpc' = [wpc EXCEPT ![w] = "check"]
           /\ UNCHANGED <<slot, alive, free, cpc, given, started, ended, called>>
Run(w) == wpc[w] = "run" /\ started' = [started EXCEPT ![slot[w]] = @ + 1] /\ wpc' = [wpc EXCEPT ![w] = "body"]
          /\ UNCHANGED <<mtx, slot, alive, free, cpc, given, ended, called>>
Body(w) == wpc[w] = "body" /\ ended' = [ended EXCEPT ![slot[w]] = @ + 1] /\ wpc' = [wpc EXCEPT ![w] = "after"]
           /\ UNCHANGED <<mtx, slot, alive, free, cpc, given, started, called>>
\* completion callback, then back to the free list (front) under the pool mutex
After(w) == wpc[w] = "after" /\ called' = [called EXCEPT ![slot[w]] = @ + 1] /\ wpc' = [wpc EXCEPT ![w] = "recycle"]
            /\ UNCHANGED <<mtx, slot, alive, free, cpc, given, started, ended>>
Recycle(w) == wpc[w] = "recycle" /\ free' = <<w>> \o free /\ wpc' = [wpc EXCEPT ![w] = "clear"]
              /\ UNCHANGED <<mtx, slot, alive, cpc, given, started, ended, called>>
Clear(w) == wpc[w] = "clear" /\ slot' = [slot EXCEPT ![w] = 0] /\ wpc' = [wpc EXCEPT ![w] = "check"]
            /\ UNCHANGED <<mtx, alive, free, cpc, given, started, ended, called>>
---------------------------------------------------------------------------
\* client
Notify(w) == IF wpc[w] = "waiting" THEN [wpc EXCEPT ![w] = "woken"] ELSE wpc
Load == /\ cpc[1] = "idle" /\ given < T /\ free # <<>>
        /\ cpc' = <<"give", Head(free)>> /\ free' = Tail(free) /\ given' = given + 1
        /\ UNCHANGED <<mtx, slot, wpc, alive, started, ended, called>>
Give == /\ cpc[1] = "give" /\ CanLock(cpc[2])
        /\ slot' = [slot EXCEPT ![cpc[2]] = given] /\ wpc' = Notify(cpc[2]) /\ cpc' = <<"idle", 0>>
        /\ UNCHANGED <<mtx, alive, free, given, started, ended, called>>
Join == /\ cpc[1] = "idle" /\ Len(free) = W
        /\ Assert(\A t \in 1 .. given : ended[t] = 1 /\ called[t] = 1, "join returned early")
        /\ UNCHANGED vars
BeginDestroy == /\ cpc[1] = "idle" /\ cpc' = <<"stop", 0>>
                /\ UNCHANGED <<mtx, slot, wpc, alive, free, given, started, ended, called>>
Stop == /\ cpc[1] = "stop" /\ cpc[2] < W
        /\ LockedStop => (CanLock(cpc[2]) /\ slot[cpc[2]] = 0)
        /\ alive' = [alive EXCEPT ![cpc[2]] = FALSE]
        /\ cpc' = <<"signal", cpc[2]>>
        /\ UNCHANGED <<mtx, slot, wpc, free, given, started, ended, called>>
Signal == /\ cpc[1] = "signal" /\ wpc' = Notify(cpc[2]) /\ cpc' = <<"await", cpc[2]>>
          /\ UNCHANGED <<mtx, slot, alive, free, given, started, ended, called>>
Await == /\ cpc[1] = "await" /\ wpc[cpc[2]] = "exit"
         /\ cpc' = IF cpc[2] + 1 = W THEN <<"gone", 0>> ELSE <<"stop", cpc[2] + 1>>
         /\ UNCHANGED <<mtx, slot, wpc, alive, free, given, started, ended, called>>
Gone == cpc[1] = "gone" /\ UNCHANGED vars

Next == \/ \E w \in Worker : Enter(w) \/ Check(w) \/ Wait(w) \/ Wake(w) \/ Run(w) \/ Body(w) \/ After(w) \/ Recycle(w) \/ Clear(w)
        \/ Load \/ Give \/ Join \/ BeginDestroy \/ Stop \/ Signal \/ Await \/ Gone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
        /\ \A w \in Worker : WF_vars(Enter(w) \/ Check(w) \/ Wait(w) \/ Wake(w) \/ Run(w) \/ Body(w) \/ After(w) \/ Recycle(w) \/ Clear(w))
        /\ WF_vars(Give \/ Stop \/ Signal \/ Await)

AtMostOnce == \A t \in Task : started[t] <= 1 /\ ended[t] <= started[t] /\ called[t] <= ended[t]
Limit == Cardinality({t \in Task : started[t] > ended[t]}) <= W
NoneLost == cpc[1] = "gone" => \A t \in 1 .. given : ended[t] = 1 /\ called[t] = 1
\* destruction ends, and every given task runs
DestroyEnds == (cpc[1] = "stop") ~> (cpc[1] = "gone")
TasksRun == \A t \in Task : (given >= t) ~> (called[t] = 1)
=============================================================================
