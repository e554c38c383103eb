CONSTANTS
  MaxBlock = 40
  Stall = 30000
  Settle = 10000
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
