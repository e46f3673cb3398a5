SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Blocks = {1, 2}
  Hs = {h1, h2}
  MaxDeep = 3
  Depth = 16
  Variant = "now"
INVARIANTS Messages Held Values
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
