CONSTANTS
  Tasks = {1, 2, 3}
  Prios = {0, 1}
  Caps = {1, 2}
  Depth = 9
SPECIFICATION GSpec
CONSTRAINT Dump
CHECK_DEADLOCK FALSE
