SPECIFICATION Spec
CONSTANTS
  Ops = {o1, o2, o3}
  Consts = {c1, c2}
  Nets = {m1, m2, m3, m4}
  InPlace = FALSE
  Again = FALSE
  Depth = 60
CONSTRAINT Bounded
INVARIANTS Right Stays Plain
CHECK_DEADLOCK FALSE
