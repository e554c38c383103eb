SPECIFICATION Spec
CONSTANTS
  Slack = 30000
  Devs = {"d1"}
  MaxOps = 5
INVARIANTS TypeOK Catchup Restored Consistent
CHECK_DEADLOCK FALSE
