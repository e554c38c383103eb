CONSTANTS
  Timeout = 20000
  Day = 86400000
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
