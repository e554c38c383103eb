CONSTANTS
  Callers = {}
  Keys = {}
  Ops = {}
  Vals = {}
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
