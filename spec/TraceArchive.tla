---------------------------- MODULE TraceArchive ----------------------------
EXTENDS Archive, TraceUtil
VARIABLES l
tv == <<avars, l>>
E == Trace[l]
Same == UNCHANGED avars
\* what reading the next object must give
Reads == IF Whole(E.r)
         THEN /\ ReadOk(E.r) /\ E.err = ""
              /\ LET x == NextItem(E.r) IN E.d = x.d /\ E.used = x.len /\ (E.ret = -1 \/ E.ret = x.len)
         ELSE ReadErr(E.r) /\ E.err = "ts"
Body ==
  CASE E.ev = "st" -> Start(E.s)
    [] E.ev = "w" -> Write(E.s, E.d, E.len) /\ E.err = "" /\ E.ret \in {-1, E.len}
    [] E.ev = "cut" -> CutAt(E.s, E.q, E.at)
    [] E.ev = "empty" -> Empty(E.s)
    [] E.ev = "open" -> Open(E.r, E.s)
    [] E.ev = "close" -> Close(E.r)
    [] E.ev = "r" -> Reads
    \* a file holding one object, read by name
    [] E.ev = "rf" -> LET x == str[E.s] IN
                      /\ Same
                      /\ IF x.items # <<>> /\ x.items[1].len <= x.size THEN E.err = "" /\ E.d = x.items[1].d
                         ELSE E.err = "ts"
    \* something that is no saved network, or no file at all
    [] E.ev = "junk" -> Same /\ E.err = "ts"
    \* the network read, run beside the one written
    [] E.ev = "run" -> Same /\ E.a = E.b
TraceInit == Init /\ l = 1
TraceNext ==
  \/ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1 /\ str' = <<>> /\ rdr' = <<>>
  \/ l <= Len(Trace) /\ E.ev # "reset" /\ l' = l + 1 /\ Body
TraceSpec == TraceInit /\ [][TraceNext]_tv
=============================================================================
