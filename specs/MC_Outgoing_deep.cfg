CONSTANTS
  Normal = 2
  Extended = 3
  Settle = 1
  Reload = 1
  MaxCalls = 3
  MaxNow = 3
SPECIFICATION MCSpec
INVARIANTS OneAtATime NumbersFit NotLate OnePacketPerStep Moved
CHECK_DEADLOCK FALSE
