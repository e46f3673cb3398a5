------------------------------ MODULE Tensors ------------------------------
(* Tensor handles.  A handle is a non-empty sequence of fields; a field looks*)
(* at the elements of a cell (storage) from an offset on, in a shape.  A     *)
(* field holds its cell by a share (ctr), strongly or weakly, or borrows it  *)
(* (a slice).  A cell lives as long as a strong, not borrowing field looks at*)
(* it.  A field is dead when its cell is gone or, if weak, when nobody holds *)
(* its share strongly any more; dead handles must not be used.               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cells,   \* cell -> its elements
          han      \* handle -> sequence of fields
vars == <<cells, han>>
Nothing == 0                             \* the cell of what has no elements
Eternal == <<0, 0>>                      \* the share of empty tensors
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Field(cell, ctr, weak, bor, off, shape, type) ==
  [cell |-> cell, ctr |-> ctr, weak |-> weak, bor |-> bor, off |-> off, shape |-> shape, type |-> type]
EmptyField == Field(Nothing, Eternal, TRUE, FALSE, 0, <<>>, "void")
Count(f) == IF f.type = "void" THEN 0 ELSE Prod(f.shape)
Vals(f) == [i \in 1..Count(f) |-> cells[f.cell][f.off + i]]
FieldsOf(H) == UNION {{H[h][i] : i \in 1..Len(H[h])} : h \in DOMAIN H}
Held(H) == {f.cell : f \in {f \in FieldsOf(H) : ~f.weak /\ ~f.bor}}
Shares(H) == {f.ctr : f \in {f \in FieldsOf(H) : ~f.weak}}
DeadField(H, f) == /\ f.ctr # Eternal
                   /\ \/ f.weak /\ f.ctr \notin Shares(H)
                      \/ f.cell # Nothing /\ f.cell \notin Held(H)
RECURSIVE Alive(_)
Alive(H) == LET bad == {h \in DOMAIN H : \E i \in 1..Len(H[h]) : DeadField(H, H[h][i])}
            IN IF bad = {} THEN H ELSE Alive([h \in DOMAIN H \ bad |-> H[h]])
Settle(H, C) == LET left == Alive(H) IN han' = left /\ cells' = [c \in DOMAIN C \cap Held(left) |-> C[c]]
Gone(H) == DOMAIN H \ DOMAIN Alive(H)
With(h, fs) == Put(han, h, fs)
Without(H, S) == [x \in DOMAIN H \ S |-> H[x]]
Init == cells = <<>> /\ han = <<>>
-----------------------------------------------------------------------------
(* shapes                                                                    *)
Negs(s) == {i \in 1..Len(s) : s[i] < 0}
KnownProd(s) == Prod([i \in 1..Len(s) |-> IF s[i] < 0 THEN 1 ELSE s[i]])
\* the shape meant, or <<-1>> if there is none
Reshaped(n, s) == IF Cardinality(Negs(s)) > 1 THEN <<-1>>
                  ELSE IF Negs(s) = {} THEN IF Prod(s) = n THEN s ELSE <<-1>>
                  ELSE LET k == KnownProd(s) IN IF k = 0 THEN <<-1>> ELSE IF n % k # 0 THEN <<-1>>
                       ELSE [i \in 1..Len(s) |-> IF s[i] < 0 THEN n \div k ELSE s[i]]
Flattened(s, d0) == LET d == IF d0 < 0 THEN 0 ELSE d0
                    IN [i \in 1..(d + 1) |-> IF i <= d THEN IF i <= Len(s) THEN s[i] ELSE 1
                                             ELSE Prod(SubSeq(s, d + 1, Len(s)))]
-----------------------------------------------------------------------------
New(h, c, s, t, v) == LET n == Prod(s) cell == IF n = 0 THEN Nothing ELSE c
                      IN Settle(With(h, <<Field(cell, <<h, 1>>, FALSE, FALSE, 0, s, t)>>), IF n = 0 THEN cells ELSE Put(cells, c, v))
Give(h, fs) == Settle(With(h, fs), cells)
Copy(h, to) == Give(to, han[h])
Move(h, to) == Settle(Without(With(to, han[h]), {h}), cells)
Reshape(h, to, s) == Give(to, [han[h] EXCEPT ![1].shape = Reshaped(Prod(han[h][1].shape), s)])
Flatten(h, to, d) == Give(to, [han[h] EXCEPT ![1].shape = Flattened(han[h][1].shape, d)])
SliceOk(f, b, e) == Len(f.shape) >= 1 /\ 0 <= b /\ b < e /\ (IF f.shape = <<>> THEN TRUE ELSE e <= f.shape[1])
Slice(h, to, b, e, one) ==
  LET f == han[h][1] row == Prod(Tail(f.shape))
  IN Give(to, <<Field(f.cell, <<to, 1>>, FALSE, TRUE, f.off + (b * row), IF one THEN Tail(f.shape) ELSE <<e - b>> \o Tail(f.shape), f.type)>>)
CloneField(f, to, i, c) == IF f.type = "void" /\ f.shape = <<>> THEN EmptyField
                           ELSE Field(c, <<to, i>>, FALSE, FALSE, 0, f.shape, f.type)
Clone(h, to, cs) ==
  LET fs == han[h]
      fresh == {i \in 1..Len(fs) : cs[i] # Nothing}
  IN Settle(With(to, [i \in 1..Len(fs) |-> CloneField(fs[i], to, i, cs[i])]),
            [c \in DOMAIN cells \cup {cs[i] : i \in fresh} |-> IF c \in DOMAIN cells THEN cells[c]
                                                               ELSE Vals(fs[CHOOSE i \in fresh : cs[i] = c])])
Pack(from, to) == Give(to, IF from = <<>> THEN <<Field(Nothing, <<to, 1>>, FALSE, FALSE, 0, <<>>, "void")>>
                           ELSE [i \in 1..Len(from) |-> han[from[i]][1]])
FieldAt(h, k) == IF k < 0 THEN Len(han[h]) + k + 1 ELSE k + 1
FieldOk(h, k) == FieldAt(h, k) \in 1..Len(han[h])
Get(h, to, k) == Give(to, <<han[h][FieldAt(h, k)]>>)
Set(h, from, k) == Give(h, [han[h] EXCEPT ![FieldAt(h, k)] = han[from][1]])
Refield(h, n) == Give(h, IF n = 0 THEN <<EmptyField>> ELSE [i \in 1..n |-> IF i <= Len(han[h]) THEN han[h][i] ELSE EmptyField])
View(h, to) == Give(to, [i \in 1..Len(han[h]) |-> [han[h][i] EXCEPT !.ctr = <<to, i>>, !.weak = FALSE]])
Mode(h, to, weak) == Give(to, [i \in 1..Len(han[h]) |-> [han[h][i] EXCEPT !.weak = weak]])
Drop(h) == Settle(Without(han, {h}), cells)
Write(h, i, at, v) == LET f == han[h][i] IN cells' = [cells EXCEPT ![f.cell][f.off + at + 1] = v] /\ UNCHANGED han
=============================================================================
