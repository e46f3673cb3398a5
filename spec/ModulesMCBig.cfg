SPECIFICATION Spec
CONSTANTS
  Nodes = {n1, n2, n3, n4}
  Graphs = {g1, g2}
  Mods = {m1, m2}
  Names = {a}
  Depth = 10
CONSTRAINT Bounded
INVARIANTS Agree ModulesHold
CHECK_DEADLOCK FALSE
