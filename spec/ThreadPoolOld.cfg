SPECIFICATION Spec
CONSTANTS W = 2
  T = 3
  LockedStop = FALSE
