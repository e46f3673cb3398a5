-------------------------------- MODULE Aes --------------------------------
(* AES-256 as in FIPS-197: bytes are 0..255, a block is a sequence of 16.    *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
Byte == 0..255
Plus(a, b) == a ^^ b
XTime(a) == IF a < 128 THEN 2 * a ELSE Plus(2 * a - 256, 27)
M2 == TLCEval([a \in Byte |-> XTime(a)])
M3 == TLCEval([a \in Byte |-> Plus(a, M2[a])])
M4 == TLCEval([a \in Byte |-> M2[M2[a]]])
M8 == TLCEval([a \in Byte |-> M2[M4[a]]])
M9 == TLCEval([a \in Byte |-> Plus(a, M8[a])])
M11 == TLCEval([a \in Byte |-> Plus(M3[a], M8[a])])
M13 == TLCEval([a \in Byte |-> Plus(M9[a], M4[a])])
M14 == TLCEval([a \in Byte |-> Plus(M8[a], Plus(M4[a], M2[a]))])
Bit(a, i) == (a \div (2 ^ (i % 8))) % 2
\* the multiplicative inverse, then the affine map
Powers == FoldLeft(LAMBDA t, i : Append(t, M3[t[Len(t)]]), <<1>>, [i \in 1..254 |-> i])     \* Powers[i + 1] = 3^i
Inv == LET pow == Powers
               log == TLCEval([i \in 1..255 |-> CHOOSE k \in 1..255 : pow[k] = i])
           IN TLCEval([a \in Byte |-> IF a = 0 THEN 0 ELSE pow[((256 - log[a]) % 255) + 1]])
RECURSIVE Weigh(_, _)
Weigh(f, i) == IF i = 8 THEN 0 ELSE f[i] * (2 ^ i) + Weigh(f, i + 1)
Affine(a) == Weigh([i \in 0..7 |-> (Bit(a, i) + Bit(a, i + 4) + Bit(a, i + 5) + Bit(a, i + 6) + Bit(a, i + 7) + Bit(99, i)) % 2], 0)
SBox == LET inv == Inv IN TLCEval([a \in Byte |-> Affine(inv[a])])
InvSBox == TLCEval(LET s == SBox IN [b \in Byte |-> CHOOSE a \in Byte : s[a] = b])
-----------------------------------------------------------------------------
Add(a, b) == TLCEval([i \in 1..Len(a) |-> Plus(a[i], b[i])])
Sub(t, s) == TLCEval([i \in 1..Len(s) |-> t[s[i]]])
\* column c, row r of a block is byte 4c + r + 1
Shift(s, d) == [i \in 1..16 |-> LET r == (i - 1) % 4 c == (i - 1) \div 4 IN s[4 * ((c + d * r + 16) % 4) + r + 1]]
Mix(s, A, B, C, D) == TLCEval([i \in 1..16 |-> LET r == (i - 1) % 4 c == 4 * ((i - 1) \div 4) IN
    Plus(Plus(A[s[c + r + 1]], B[s[c + ((r + 1) % 4) + 1]]), Plus(C[s[c + ((r + 2) % 4) + 1]], D[s[c + ((r + 3) % 4) + 1]]))])
One == [a \in Byte |-> a]
Rcon == <<1, 2, 4, 8, 16, 32, 64>>
Word(w, i) == SubSeq(w, 4 * i + 1, 4 * i + 4)
NextWord(w, i) ==
  LET t == Word(w, i - 1)
      u == IF i % 8 = 0 THEN LET x == Sub(SBox, <<t[2], t[3], t[4], t[1]>>) IN <<Plus(x[1], Rcon[i \div 8]), x[2], x[3], x[4]>>
           ELSE IF i % 8 = 4 THEN Sub(SBox, t) ELSE t
  IN w \o Add(Word(w, i - 8), u)
Schedule(key) == FoldLeft(NextWord, key, [i \in 1..52 |-> i + 7])
RoundKey(w, r) == SubSeq(w, 16 * r + 1, 16 * r + 16)
EncWith(w, b) ==
  LET s == FoldLeft(LAMBDA x, r : Add(Mix(Shift(Sub(SBox, x), 1), M2, M3, One, One), RoundKey(w, r)), Add(b, RoundKey(w, 0)), [i \in 1..13 |-> i])
  IN Add(Shift(Sub(SBox, s), 1), RoundKey(w, 14))
Undo(x, w, r) == Add(Sub(InvSBox, Shift(x, -1)), RoundKey(w, r))
DecWith(w, b) ==
  LET s == FoldLeft(LAMBDA x, r : Mix(Undo(x, w, 14 - r), M14, M11, M13, M9), Add(b, RoundKey(w, 14)), [i \in 1..13 |-> i])
  IN Undo(s, w, 0)
\* the examples of FIPS-197
Count16 == [i \in 1..16 |-> (i - 1) * 17]
ASSUME SBox[0] = 99 /\ SBox[83] = 237 /\ InvSBox[237] = 83
ASSUME LET w == Schedule([i \in 1..32 |-> i - 1]) IN
         /\ EncWith(w, Count16) = <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>
         /\ DecWith(w, <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>) = Count16
=============================================================================
