CONSTANTS
  MaxProbe = 4
SPECIFICATION Spec
INVARIANTS Steady
CHECK_DEADLOCK FALSE
