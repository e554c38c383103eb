CONSTANTS
  Tries = 3
  Pause = 1000
  Timeout = 5000
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
