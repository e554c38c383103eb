CONSTANTS
  WdPeriod = 30000
  Gap = 1000
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
