SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Blocks = {1, 2}
  Hs = {h1, h2}
  MaxDeep = 2
  Depth = 12
  Variant = "entry"
INVARIANTS Messages Held Values
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
