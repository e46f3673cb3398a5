------------------------------ MODULE AesFile ------------------------------
(* Files written and read through the cipher, block by block, the last one   *)
(* filled up with the number of bytes it lacks.                              *)
EXTENDS Aes, FiniteSets
VARIABLES file, wr, rd     \* file -> raw bytes; writer -> [f, key, data]; reader -> [p: clear bytes, ok: well ended, lim, pos, dead]
fvars == <<file, wr, rd>>
NoMap == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
\* what is not given of a key is taken from this one, what is beyond 32 bytes is ignored
Rest == <<96, 61, 235, 16, 21, 202, 113, 190, 43, 115, 174, 240, 133, 125, 119, 129, 31, 53, 44, 7, 59, 97, 8, 215, 45, 152, 16, 163, 9, 20, 223, 244>>
FullKey(k) == [i \in 1..32 |-> IF i <= Len(k) THEN k[i] ELSE Rest[i]]
Padded(d) == LET n == 16 - (Len(d) % 16) IN d \o [i \in 1..n |-> n]
Blocks(s) == [i \in 1..(Len(s) \div 16) |-> SubSeq(s, 16 * (i - 1) + 1, 16 * i)]
Cipher(key, d) == LET w == Schedule(FullKey(key)) b == Blocks(Padded(d)) IN FoldLeft(LAMBDA t, x : t \o EncWith(w, x), <<>>, b)
Clear(key, raw) == LET w == Schedule(FullKey(key)) b == Blocks(raw) IN FoldLeft(LAMBDA t, x : t \o DecWith(w, x), <<>>, b)
\* whole blocks, ending in n bytes of value n
WellEnded(p, raw) == Len(raw) % 16 = 0 /\ Len(p) > 0 /\ LET n == p[Len(p)] IN n \in 1..16 /\ \A i \in Len(p) - n + 1..Len(p) : p[i] = n
Opened(key, raw) ==
  LET p == Clear(key, raw) ok == WellEnded(p, raw)
  IN [p |-> IF ok THEN SubSeq(p, 1, Len(p) - p[Len(p)]) ELSE p, ok |-> ok, none |-> raw = <<>>,
      sure |-> IF ok THEN Len(p) ELSE IF Len(p) < 16 THEN 0 ELSE Len(p) - 16,      \* what must be readable of a file that ends badly
      most |-> IF Len(raw) % 16 = 0 THEN IF Len(p) < 16 THEN 0 ELSE Len(p) - 16 ELSE Len(p), pos |-> 0, dead |-> FALSE]
Left(r) == Len(r.p) - r.pos
Next16(r, n) == [r EXCEPT !.pos = @ + n]
Bytes(r, n) == SubSeq(r.p, r.pos + 1, r.pos + n)
\* a reader gives what is left, as much as is asked for; got = <<>> or an error when nothing is left
ReadOk(r, n, got, err) == IF r.ok \/ r.none THEN IF Left(r) = 0 /\ n > 0 THEN got = <<>> /\ err \in {"", "ts"}
                                      ELSE err = "" /\ got = Bytes(r, IF n < Left(r) THEN n ELSE Left(r))
                          ELSE IF r.pos + n <= r.sure THEN err = "" /\ got = Bytes(r, n)
                          ELSE err = "ts" \/ (r.pos + n <= r.most /\ err = "" /\ got = Bytes(r, n))
=============================================================================
