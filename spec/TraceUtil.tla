----------------------------- MODULE TraceUtil -----------------------------
(* Shared by all trace specifications: the recorded trace and the acceptance *)
(* postcondition (one state per consumed line plus the initial one).         *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
