CONSTANTS
  Normal = 5000
  Extended = 28000
  Settle = 1000
  Reload = 1000
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
