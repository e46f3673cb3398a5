SPECIFICATION Spec
CONSTANTS Devs = {"cpu", "d"}
          Insts = {1, 2}
          Depth = 8
INVARIANTS StartedWhole FoundRight
PROPERTIES Apart
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
