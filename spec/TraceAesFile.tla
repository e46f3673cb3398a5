---------------------------- MODULE TraceAesFile ----------------------------
EXTENDS AesFile, TraceUtil
VARIABLE l
E == Trace[l]
Body ==
  CASE E.ev = "wopen" -> E.open /\ wr' = Put(wr, E.w, [f |-> E.f, key |-> E.key, data |-> <<>>]) /\ UNCHANGED <<file, rd>>
    [] E.ev = "w" -> E.ret = Len(E.data) /\ wr' = [wr EXCEPT ![E.w].data = @ \o E.data] /\ UNCHANGED <<file, rd>>
    [] E.ev = "wclose" -> LET x == wr[E.w] IN
                          /\ E.raw = Cipher(x.key, x.data) /\ (E.how = "close" => ~E.open) /\ (E.how = "again" => ~E.open)
                          /\ file' = Put(file, x.f, E.raw) /\ wr' = Del(wr, {E.w}) /\ UNCHANGED rd
    [] E.ev = "raw" -> file' = Put(file, E.f, E.raw) /\ UNCHANGED <<wr, rd>>
    [] E.ev = "missing" -> ~E.open /\ E.err = "ts" /\ UNCHANGED fvars
    [] E.ev = "ropen" -> E.open /\ rd' = Put(rd, E.r, Opened(E.key, file[E.f])) /\ UNCHANGED <<file, wr>>
    [] E.ev = "r" -> LET x == rd[E.r] IN
                     /\ ReadOk(x, E.n, E.got, E.err) /\ E.clean
                     /\ rd' = Put(rd, E.r, Next16(x, Len(E.got))) /\ UNCHANGED <<file, wr>>
    [] E.ev = "rdrop" -> rd' = Del(rd, {E.r}) /\ UNCHANGED <<file, wr>>
    \* a module written under a key: read back the same, refused without it
    [] E.ev = "mod" -> E.err = "" /\ E.same /\ E.wrong = "ts" /\ E.plain = "ts" /\ UNCHANGED fvars
    [] E.ev = "done" -> UNCHANGED fvars
TraceInit == file = NoMap /\ wr = NoMap /\ rd = NoMap /\ l = 1
TraceNext ==
  \/ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1 /\ file' = NoMap /\ wr' = NoMap /\ rd' = NoMap
  \/ l <= Len(Trace) /\ E.ev # "reset" /\ l' = l + 1 /\ Body
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
=============================================================================
