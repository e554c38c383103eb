CONSTANTS
  Timeout = 2
  Day = 4
  MaxTime = 3
 Inners = {1, 2}
 Hws = {7}
 QHws = {0}
SPECIFICATION Spec
INVARIANTS Progress Sound Unambiguous Needed Once
CHECK_DEADLOCK FALSE
