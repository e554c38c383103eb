CONSTANTS
  Delays = {}
  MaxT = 0
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
