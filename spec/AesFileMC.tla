------------------------------ MODULE AesFileMC ------------------------------
(* The buffering of writer and reader, over blocks of B bytes: whichever way *)
(* the bytes are cut, those read are those written. Encryption is left out:  *)
(* it maps blocks to blocks one to one.                                      *)
EXTENDS Integers, Sequences
CONSTANTS B, MaxLen, MaxCut
VARIABLES sent, wbuf, disk, open,         \* bytes written, of them not yet in a block, blocks, still writing
          fpos, eof, mast, moff, sec,     \* reader: blocks taken, end met, buffer with offset, block looked ahead (<<>> if none)
          given, last                     \* bytes delivered, how the last read went
vars == <<sent, wbuf, disk, open, fpos, eof, mast, moff, sec, given, last>>
Init == sent = 0 /\ wbuf = <<>> /\ disk = <<>> /\ open = TRUE /\ fpos = 0 /\ eof = FALSE /\ mast = <<>> /\ moff = 0 /\ sec = <<>> /\ given = <<>> /\ last = <<0, 0>>
\* a block is written only when more bytes come
RECURSIVE Flow(_, _, _)
Flow(b, d, in) == IF Len(in) = 0 THEN <<b, d>>
                  ELSE IF B - Len(b) >= Len(in) THEN <<b \o in, d>>
                  ELSE Flow(<<>>, Append(d, b \o SubSeq(in, 1, B - Len(b))), SubSeq(in, B - Len(b) + 1, Len(in)))
Write(n) == /\ open /\ sent + n <= MaxLen
            /\ LET r == Flow(wbuf, disk, [i \in 1..n |-> sent + i]) IN wbuf' = r[1] /\ disk' = r[2]
            /\ sent' = sent + n /\ UNCHANGED <<open, fpos, eof, mast, moff, sec, given, last>>
Pads(k) == [i \in 1..k |-> 0 - k]
Close == /\ open /\ open' = FALSE /\ wbuf' = <<>>
         /\ disk' = IF Len(wbuf) = B THEN Append(Append(disk, wbuf), Pads(B)) ELSE Append(disk, wbuf \o Pads(B - Len(wbuf)))
         /\ UNCHANGED <<sent, fpos, eof, mast, moff, sec, given, last>>
\* one step of the reader's loop: state [f, e, m, o, s, out, stop]
Fetch(x) == IF x.f < Len(disk) THEN [x EXCEPT !.f = @ + 1, !.s = disk[x.f + 1]] ELSE [x EXCEPT !.e = TRUE, !.s = <<>>]
RECURSIVE Loop(_, _)
Loop(x, n) ==
  IF Len(x.out) >= n THEN x
  ELSE LET a == IF x.s = <<>> THEN Fetch(x) ELSE x IN
       IF a.s = <<>> THEN a
       ELSE LET b == Fetch([a EXCEPT !.m = a.s, !.o = 0])
                c == IF b.s = <<>> THEN [b EXCEPT !.m = SubSeq(@, 1, Len(@) + @[B])] ELSE b    \* the filling taken off
                want == n - Len(c.out)
            IN IF Len(c.m) >= want THEN [c EXCEPT !.out = @ \o SubSeq(c.m, 1, want), !.o = want]
               ELSE LET d == [c EXCEPT !.out = @ \o c.m, !.m = <<>>, !.o = 0] IN IF b.s = <<>> THEN d ELSE Loop(d, n)
Read(n) ==
  /\ ~open
  /\ LET have == SubSeq(mast, moff + 1, Len(mast)) IN
     IF Len(have) >= n THEN /\ given' = given \o SubSeq(have, 1, n) /\ moff' = moff + n /\ last' = <<n, n>> /\ UNCHANGED <<fpos, eof, mast, sec>>
     ELSE IF eof THEN /\ given' = given \o have /\ mast' = <<>> /\ moff' = 0 /\ last' = <<n, Len(have)>> /\ UNCHANGED <<fpos, eof, sec>>
     ELSE LET x == Loop([f |-> fpos, e |-> eof, m |-> <<>>, o |-> 0, s |-> sec, out |-> have], n) IN
          /\ given' = given \o x.out /\ fpos' = x.f /\ eof' = x.e /\ mast' = x.m /\ moff' = x.o /\ sec' = x.s /\ last' = <<n, Len(x.out)>>
  /\ UNCHANGED <<sent, wbuf, disk, open>>
Next == (\E n \in 0..MaxCut : Write(n)) \/ Close \/ (\E n \in 0..MaxCut : Read(n))
Spec == Init /\ [][Next]_vars
Exact == Len(given) <= sent /\ \A i \in 1..Len(given) : given[i] = i
\* a short read means that nothing is left
Short == last[2] < last[1] => Len(given) = sent
Whole == ~open => Len(disk) = (sent \div B) + 1
=============================================================================
