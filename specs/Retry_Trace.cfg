CONSTANTS
  TriesSet = {}
  Delays = {}
  Args = {}
  Vals = {}
  MaxTime = 0
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
