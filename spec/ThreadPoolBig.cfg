SPECIFICATION Spec
CONSTANTS W = 3
  T = 4
  LockedStop = TRUE
INVARIANTS AtMostOnce Limit NoneLost
