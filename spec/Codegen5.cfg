SPECIFICATION Spec
CONSTANTS N = 5
  MaxOuts = 2
  MaxSteps = 90
INVARIANTS EndsInTime OutputsRight EachOnce InputsOnly
CHECK_DEADLOCK FALSE
