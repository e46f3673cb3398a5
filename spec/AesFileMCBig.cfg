SPECIFICATION Spec
CONSTANTS B = 4
          MaxLen = 30
          MaxCut = 14
INVARIANTS Exact Short Whole
CHECK_DEADLOCK FALSE
