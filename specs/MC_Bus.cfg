CONSTANTS
  Objs = {"x"}
  Lsts = {1, 2}
  Names = {"e", "f"}
  ArgVals = {7}
  Handles <- MCHandles
SPECIFICATION MCSpec
CONSTRAINT Small
INVARIANTS Prefix Isolation
CHECK_DEADLOCK FALSE
