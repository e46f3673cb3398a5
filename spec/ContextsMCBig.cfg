SPECIFICATION Spec
CONSTANTS Ts = {1, 2}
          Depth = 9
          Bare = FALSE
INVARIANTS Legal Owned InEffect
PROPERTIES Restored Private
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
