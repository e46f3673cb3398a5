SPECIFICATION Spec
CONSTANTS W = 2
  T = 3
  LockedStop = TRUE
INVARIANTS AtMostOnce Limit NoneLost
PROPERTIES DestroyEnds TasksRun
