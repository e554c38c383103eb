CONSTANTS
  TriesSet = {0, 1, 2, 3}
  Delays = {0, 2}
  Args = {7}
  Vals = {1, 2}
  MaxTime = 7
SPECIFICATION Spec
INVARIANTS Bounded UsedUp
CHECK_DEADLOCK FALSE
