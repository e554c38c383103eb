CONSTANT Timeout = 5000
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
