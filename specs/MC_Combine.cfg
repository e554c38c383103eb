CONSTANTS
  Callers = {1, 2, 3}
  Keys = {1, 2}
  Ops = {1, 2, 3}
  Vals = {1}
SPECIFICATION Spec
INVARIANTS Once
CHECK_DEADLOCK FALSE
