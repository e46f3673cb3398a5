SPECIFICATION TraceSpec
CONSTANTS MaxLen = 1
  MaxCells = 1
  MaxFrames = 1
  Vals = {0}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
