CONSTANTS
  Delays = {0, 1, 3}
  MaxT = 7
SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS NotLate
CHECK_DEADLOCK FALSE
