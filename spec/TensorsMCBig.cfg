SPECIFICATION Spec
CONSTANTS Handles = {1, 2, 3}
          Cells = {1, 2}
          MaxFields = 2
          Depth = 6
CONSTRAINT Shallow
INVARIANTS Sound Tight WeakOnly
PROPERTIES Writes Clones
CHECK_DEADLOCK FALSE
