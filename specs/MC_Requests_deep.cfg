CONSTANTS
  NIds = 3
  MaxTime = 2
  Reqs <- MCReqsOne
SPECIFICATION Spec
INVARIANTS OnePerDevice RadioLimit Sound
PROPERTIES Final Ordered
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
