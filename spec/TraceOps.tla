------------------------------ MODULE TraceOps ------------------------------
(* One recorded call of an operator per line: its results are those of the   *)
(* specification, a call to be rejected is (with an exception of the         *)
(* library), and no input is changed.                                        *)
EXTENDS OpsSem, TraceUtil
VARIABLE l
\* a result equals what is specified: exactly, or (for results of floating point type that are no integers) within a tolerance
Same(r, e, y) == /\ y.t = e.t
                 /\ y.s = e.s
                 /\ IF e.t = "void" THEN TRUE
                    ELSE IF "tol" \in DOMAIN r /\ e.t \in {"float32", "float64"}
                    THEN Len(y.d) = Len(e.d) /\ \A j \in 1 .. Len(e.d) : Abs(y.d[j] - e.d[j]) <= r.tol + (Abs(e.d[j]) \div 100000)
                    ELSE IF "itol" \in DOMAIN r THEN Len(y.d) = Len(e.d) /\ \A j \in 1 .. Len(e.d) : Abs(y.d[j] - e.d[j]) <= r.itol
                    ELSE y.d = e.d
Agrees(o, r) ==
  IF o.e0 # "" THEN r.k \in {"err", "any"} /\ o.e0 = "ts"
  ELSE /\ o.keep
       /\ CASE r.k = "any" -> o.e \in {"", "ts"}
            [] r.k = "err" -> o.e = "ts"
            [] r.k = "val" -> /\ o.e = ""
                              /\ o.n = 1
                              /\ Len(o.y) = Len(r.y)
                              /\ \A i \in 1 .. Len(r.y) : Same(r, r.y[i], o.y[i])
Why(o, r) == IF r.k = "val" THEN r.y ELSE r.k
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Trace[l].ev = "op"
        /\ LET o == Trace[l]  r == TLCEval(Sem(o.op, o.p, o.x, o.sc)) IN
           IF Agrees(o, r) THEN TRUE ELSE PrintT(<<"WHY", o.op, Why(o, r)>>) /\ FALSE
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
=============================================================================
