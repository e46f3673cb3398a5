SPECIFICATION Spec
CONSTANTS
  N = 6
  MaxIns = 2
  Merge = TRUE
  Lims = {"none", "in", "out"}
INVARIANTS Acyclic Limits Full Placed
CHECK_DEADLOCK FALSE
