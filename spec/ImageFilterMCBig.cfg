SPECIFICATION Spec
CONSTANTS
  Filters = {f1, f2, f3}
  Steps = {s1, s2}
  Most = 4
  Depth = 12
  WithGraph = TRUE
  f1 = f1
  f2 = f2
  f3 = f3
  s1 = s1
  s2 = s2
SYMMETRY Sym
CONSTRAINT Bounded
INVARIANT Asked Kept
CHECK_DEADLOCK FALSE
