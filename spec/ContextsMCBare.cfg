SPECIFICATION Spec
CONSTANTS Ts = {1, 2}
          Depth = 6
          Bare = TRUE
INVARIANTS Legal Owned InEffect
PROPERTIES Restored Private
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
