SPECIFICATION Spec
CONSTANTS
  Filters = {f1, f2}
  Steps = {s1, s2}
  Most = 3
  Depth = 9
  WithGraph = TRUE
  f1 = f1
  f2 = f2
  s1 = s1
  s2 = s2
SYMMETRY Sym
CONSTRAINT Bounded
INVARIANT Asked Kept
CHECK_DEADLOCK FALSE
