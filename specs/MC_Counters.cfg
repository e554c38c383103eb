CONSTANTS
  Paths <- MCPaths
  MaxV = 3
SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Consistent
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
