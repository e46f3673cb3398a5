SPECIFICATION Spec
CONSTANTS Mems = {1, 2}
  Handles = {1, 2, 3}
  Devices = {0, 1, 2}
  Values = {1, 2}
INVARIANTS CopyExists Fresh FreshEverywhere
CHECK_DEADLOCK FALSE
