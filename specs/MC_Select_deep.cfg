CONSTANTS
  Timeout = 2
  Day = 4
  MaxTime = 3
 Inners = {1}
 Hws = {0, 7}
 QHws = {0, 6}
SPECIFICATION Spec
INVARIANTS Progress Sound Unambiguous Needed Once
CHECK_DEADLOCK FALSE
