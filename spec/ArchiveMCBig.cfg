SPECIFICATION Spec
CONSTANTS
  Streams = {s1, s2}
  Readers = {r1, r2}
  What = {a, b}
  Depth = 10
CONSTRAINT Bounded
INVARIANTS ReadsAreWrites Sizes
CHECK_DEADLOCK FALSE
