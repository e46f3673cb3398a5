SPECIFICATION Spec
CONSTANTS
  Ops = {o1, o2}
  Consts = {c1, c2}
  Nets = {m1, m2, m3}
  InPlace = TRUE
  Again = FALSE
  Depth = 40
CONSTRAINT Bounded
INVARIANTS Right Stays Plain
CHECK_DEADLOCK FALSE
