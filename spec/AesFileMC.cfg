SPECIFICATION Spec
CONSTANTS B = 3
          MaxLen = 13
          MaxCut = 8
INVARIANTS Exact Short Whole
CHECK_DEADLOCK FALSE
