CONSTANTS
  Tasks = {}
  Prios = {}
  Caps = {}
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
