SPECIFICATION Spec
CONSTANTS
  Slack = 30000
  Devs = {"d1", "d2"}
  MaxOps = 6
INVARIANTS TypeOK Catchup Restored Consistent
CHECK_DEADLOCK FALSE
