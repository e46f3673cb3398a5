----------------------------- MODULE ValueStack -----------------------------
(* The value stack of the runtime: a sequence of handles to cells, with a    *)
(* current frame base and a stack of saved bases.  Position i >= 0 counts    *)
(* from the bottom of the frame, i < 0 from the top.  Handles may share a    *)
(* cell (push of an existing value); clones and fresh values get new cells.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES st,      \* Seq(Nat): cell of each slot, bottom first
          cell,    \* Seq([v: value, d: device, n: element count]): all cells ever made
          base,    \* number of slots below the frame
          bases    \* saved bases, innermost last
vars == <<st, cell, base, bases>>

Home == 0                                  \* the stack's own device
Size == Len(st) - base
Abs(i) == IF i >= 0 THEN base + i ELSE Len(st) + i      \* 0-based slot
Valid(i) == Abs(i) >= 0 /\ Abs(i) < Len(st)
InFrame(i) == Abs(i) >= base /\ Abs(i) < Len(st)
At(i) == st[Abs(i) + 1]

Init == st = <<>> /\ cell = <<>> /\ base = 0 /\ bases = <<>>

Fresh(v, d, n) == /\ cell' = Append(cell, [v |-> v, d |-> d, n |-> n])
                  /\ st' = Append(st, Len(cell) + 1)
Push(v, d, n) == Fresh(v, d, n) /\ UNCHANGED <<base, bases>>
PushIdx(i)  == Valid(i) /\ st' = Append(st, At(i)) /\ UNCHANGED <<cell, base, bases>>
CloneIdx(i, d) == Valid(i) /\ Fresh(cell[At(i)].v, d, cell[At(i)].n) /\ UNCHANGED <<base, bases>>
BadIdx(i) == ~Valid(i) /\ UNCHANGED vars                  \* reported, nothing changes
Pop(n) == n >= 0 /\ n <= Size /\ st' = SubSeq(st, 1, Len(st) - n) /\ UNCHANGED <<cell, base, bases>>
EraseRange(b, e) == /\ base <= Abs(b) /\ Abs(b) <= e /\ e <= Len(st)     \* e is a slot, 0-based exclusive
                    /\ st' = SubSeq(st, 1, Abs(b)) \o SubSeq(st, e + 1, Len(st))
                    /\ UNCHANGED <<cell, base, bases>>
Erase(i) == InFrame(i) /\ st' = SubSeq(st, 1, Abs(i)) \o SubSeq(st, Abs(i) + 2, Len(st)) /\ UNCHANGED <<cell, base, bases>>
Clear == st' = SubSeq(st, 1, base) /\ UNCHANGED <<cell, base, bases>>
Rebase(n) == n >= 0 /\ n <= Len(st) /\ base' = n /\ UNCHANGED <<st, cell, bases>>
PushBase(i) == Abs(i) >= 0 /\ Abs(i) <= Len(st) /\ base' = Abs(i) /\ bases' = Append(bases, base) /\ UNCHANGED <<st, cell>>
PopBase == /\ IF bases = <<>> THEN base' = 0 /\ bases' = bases
              ELSE base' = bases[Len(bases)] /\ bases' = SubSeq(bases, 1, Len(bases) - 1)
           /\ UNCHANGED <<st, cell>>
Write(i, v) == Valid(i) /\ cell' = [cell EXCEPT ![At(i)].v = v] /\ UNCHANGED <<st, base, bases>>
\* exchange of two slots of the frame (the swap instruction)
Swap(i, j) == /\ InFrame(i) /\ InFrame(j)
              /\ st' = [st EXCEPT ![Abs(i) + 1] = At(j), ![Abs(j) + 1] = At(i)]
              /\ UNCHANGED <<cell, base, bases>>

---------------------------------------------------------------------------
CONSTANTS MaxLen, MaxCells, MaxFrames, Vals
Idx == (0 - MaxLen) .. MaxLen
Next == \/ \E v \in Vals : Push(v, Home, 1)
        \/ \E i \in Idx : PushIdx(i) \/ CloneIdx(i, Home) \/ BadIdx(i) \/ (InFrame(i) /\ Erase(i)) \/ (Abs(i) >= base /\ PushBase(i))
        \/ \E n \in 0 .. MaxLen : Pop(n) \/ (n >= base /\ Rebase(n))
        \/ \E b \in Idx, e \in 0 .. MaxLen : EraseRange(b, e)
        \/ \E i, j \in Idx : Swap(i, j)
        \/ Clear \/ (bases # <<>> /\ PopBase)
        \/ \E i \in Idx, v \in Vals : Write(i, v)
Spec == Init /\ [][Next]_vars
Bounded == Len(st) <= MaxLen /\ Len(cell) <= MaxCells /\ Len(bases) <= MaxFrames

FrameInside == 0 <= base /\ base <= Len(st) /\ \A k \in 1 .. Len(bases) : bases[k] <= Len(st)
CellsExist == \A k \in 1 .. Len(st) : st[k] \in 1 .. Len(cell)
\* whatever an operation does, the slots below the frame it ran in stay as they are
BelowFrameKept == [][SubSeq(st', 1, IF Len(st') < base THEN Len(st') ELSE base) = SubSeq(st, 1, base)]_vars
\* cells are changed only by writing, and a clone never shares
OneCellAtATime == [][Cardinality({k \in 1 .. Len(cell) : cell'[k] # cell[k]}) <= 1]_vars
=============================================================================
