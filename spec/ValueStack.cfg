SPECIFICATION Spec
CONSTANTS MaxLen = 3
  MaxCells = 3
  MaxFrames = 2
  Vals = {0, 1}
CONSTRAINT Bounded
INVARIANTS FrameInside CellsExist
PROPERTIES BelowFrameKept OneCellAtATime
CHECK_DEADLOCK FALSE
