SPECIFICATION Spec
CONSTANTS N = 3
  MaxOuts = 2
  MaxSteps = 60
INVARIANTS EndsInTime OutputsRight EachOnce InputsOnly
CHECK_DEADLOCK FALSE
