CONSTANTS
  NIds = 2
  MaxTime = 3
  Reqs <- MCReqs
SPECIFICATION Spec
INVARIANTS OnePerDevice RadioLimit Sound
PROPERTIES Final Ordered Completes
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
