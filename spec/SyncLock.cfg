SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3, t4}
  Keys = {k1, k2}
  Recheck = TRUE
INVARIANTS Exclusive Once
PROPERTY Finishes
