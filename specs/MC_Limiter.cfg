CONSTANTS
  Tasks = {1, 2, 3}
  Prios = {0, 1}
  Caps = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS TypeOK Disjoint
PROPERTIES NeverOverAdmits InTurn NoLostWakeup Delivered
CHECK_DEADLOCK FALSE
