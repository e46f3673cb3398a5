----------------------------- MODULE TraceShape -----------------------------
(* Announced, executed and statically inferred shapes and types of one       *)
(* recorded call: the announcement is that of the result produced, and static*)
(* inference states no dimension or type that execution contradicts.         *)
EXTENDS OpsSem, TraceUtil
VARIABLE l
Proto(t) == [t |-> t.t, s |-> t.s]
\* the announcement made for the same inputs, before or after the execution
Announced(o) ==
  CASE o.ea = "skip" -> TRUE
    [] o.e = "" -> /\ o.ea = ""
                   /\ o.ann = [i \in 1 .. Len(o.y) |-> Proto(o.y[i])]
    [] OTHER -> o.ea \in {"", "ts"}
\* an unknown dimension is negative, an unknown result is void
Fits(s, y) == \/ s.t = "void"
              \/ /\ s.t = y.t
                 /\ Len(s.s) = Len(y.s)
                 /\ \A d \in 1 .. Len(s.s) : s.s[d] < 0 \/ s.s[d] = y.s[d]
Static(o) == \/ o.e # "" \/ "es" \notin DOMAIN o
             \/ o.es = "ts"                                  \* no answer
             \/ /\ o.es = ""
                /\ \/ Len(o.stat) = 1 /\ o.stat[1].t = "void"
                   \/ Len(o.stat) = Len(o.y) /\ \A i \in 1 .. Len(o.y) : Fits(o.stat[i], o.y[i])
\* what is produced has the shape and type specified; mismatching types and shapes are rejected
Produced(o, r) ==
  CASE r.k = "val" -> /\ o.e = ""
                      /\ Len(o.y) = Len(r.y)
                      /\ \A i \in 1 .. Len(r.y) : Proto(r.y[i]) = Proto(o.y[i])
    [] r.k = "err" -> o.e = "ts"
    [] OTHER -> o.e \in {"", "ts"}
Agrees(o) ==
  LET r == TLCEval(Sem(o.op, o.p, o.x, o.sc)) IN
  IF o.e0 # "" THEN o.e0 = "ts" /\ r.k \in {"err", "any"}
  ELSE IF ~Announced(o) THEN PrintT(<<"WHY", "announced", o.op, o.ann>>) /\ FALSE
  ELSE IF ~Static(o) THEN PrintT(<<"WHY", "static", o.op, o.stat>>) /\ FALSE
  ELSE IF ~Produced(o, r) THEN PrintT(<<"WHY", "produced", o.op, r.k>>) /\ FALSE
  ELSE TRUE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Trace[l].ev = "op"
        /\ IF Agrees(Trace[l]) THEN TRUE ELSE FALSE
        /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
=============================================================================
