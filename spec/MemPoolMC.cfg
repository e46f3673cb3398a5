SPECIFICATION Spec
CONSTANTS Pools = {1, 2}
  Handles = {1, 2}
  Blocks = {1, 2, 3}
  Sizes = {1, 2}
INVARIANTS TypeOK NoOverlap BigEnough OnePool Accounted NoLeak
PROPERTIES KeptContent
CHECK_DEADLOCK FALSE
