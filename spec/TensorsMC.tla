----------------------------- MODULE TensorsMC -----------------------------
EXTENDS Tensors, TLC
CONSTANTS Handles, Cells, MaxFields, Depth
Shapes == {<<2>>, <<1, 2>>}
VARIABLE last                               \* what was done last
mv == <<cells, han, last>>
Values == 1..2
Did(x) == last' = x
Free == Handles \ DOMAIN han
FreeCells == Cells \ DOMAIN cells
Quiet == Did([op |-> "other"])
Next ==
  \/ \E h \in Free, c \in FreeCells, s \in Shapes : New(h, c, s, "t", [i \in 1..Prod(s) |-> 1]) /\ Quiet
  \/ \E h \in DOMAIN han, to \in Handles : Copy(h, to) /\ Quiet
  \/ \E h \in DOMAIN han, to \in Handles : h # to /\ Move(h, to) /\ Quiet
  \/ \E h \in DOMAIN han, to \in Free, s \in Shapes : Reshaped(Prod(han[h][1].shape), s) = s /\ Reshape(h, to, s) /\ Quiet
  \/ \E h \in DOMAIN han, to \in Free, b, e \in 0..2 : SliceOk(han[h][1], b, e) /\ Slice(h, to, b, e, FALSE) /\ Quiet
  \/ \E h \in DOMAIN han, to \in Free : /\ Cardinality(FreeCells) >= Len(han[h])
                                        /\ Clone(h, to, [i \in 1..Len(han[h]) |-> IF Count(han[h][i]) = 0 THEN Nothing ELSE CHOOSE c \in FreeCells : Cardinality({x \in FreeCells : x < c}) = i - 1])
                                        /\ Did([op |-> "clone", h |-> h, to |-> to])
  \/ \E g, h \in DOMAIN han, to \in Free : MaxFields > 1 /\ Len(han[g]) = 1 /\ Len(han[h]) = 1 /\ Pack(<<g, h>>, to) /\ Quiet
  \/ \E h \in DOMAIN han, to \in Free, k \in -2..1 : FieldOk(h, k) /\ Get(h, to, k) /\ Quiet
  \/ \E h \in DOMAIN han, to \in Free : View(h, to) /\ Quiet
  \/ \E h \in DOMAIN han, to \in Free : Mode(h, to, TRUE) /\ Quiet
  \/ \E h \in DOMAIN han, to \in Free : Mode(h, to, FALSE) /\ Quiet
  \/ \E h \in DOMAIN han : Drop(h) /\ Quiet
  \/ \E h \in DOMAIN han, i \in 1..MaxFields, at \in 0..1, v \in Values :
        i <= Len(han[h]) /\ (IF i <= Len(han[h]) THEN at < Count(han[h][i]) ELSE FALSE) /\ Write(h, i, at, v)
        /\ Did([op |-> "write", h |-> h, i |-> i, at |-> at])
Shallow == TLCGet("level") <= Depth
Spec == Init /\ last = [op |-> "other"] /\ [][Next]_mv
\* nothing that can be used is dangling, and nothing is kept that nobody holds
Sound == \A h \in DOMAIN han : \A i \in 1..Len(han[h]) : LET f == han[h][i] IN Count(f) > 0 => f.cell \in DOMAIN cells /\ f.off + Count(f) <= Len(cells[f.cell])
Tight == DOMAIN cells = Held(han) \ {Nothing}
WeakOnly == \A c \in DOMAIN cells : \E f \in FieldsOf(han) : f.cell = c /\ ~f.weak /\ ~f.bor
\* a write is seen at the same element by exactly those that share it
Sees(f, g, at) == f.cell = g.cell /\ g.off <= f.off + at /\ f.off + at < g.off + Count(g)
Writes == [][last'.op = "write" => LET f == han[last'.h][last'.i] IN
               /\ DOMAIN han' = DOMAIN han
               /\ \A h \in DOMAIN han : \A i \in 1..Len(han[h]) : LET g == han[h][i] IN
                    \A k \in 1..Count(g) : IF f.cell = g.cell /\ g.off + k = f.off + last'.at + 1 THEN TRUE ELSE Vals(g)'[k] = Vals(g)[k]]_mv
\* a fresh clone shares with nobody
Clones == [][last'.op = "clone" => \A h \in DOMAIN han' \ {last'.to} : \A i \in 1..Len(han'[h]) : \A j \in 1..Len(han'[last'.to]) :
               han'[h][i].cell # han'[last'.to][j].cell \/ han'[h][i].cell = Nothing]_mv
=============================================================================
