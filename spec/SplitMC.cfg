SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxIns = 3
  Merge = TRUE
  Lims = {"none", "in", "out"}
INVARIANTS Acyclic Limits Full Placed
CHECK_DEADLOCK FALSE
