SPECIFICATION Spec
CONSTANTS Devs = {"cpu", "d"}
          Insts = {1}
          Depth = 9
INVARIANTS StartedWhole FoundRight
PROPERTIES Apart
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
