CONSTANTS
  Normal = 2
  Extended = 3
  Settle = 1
  Reload = 1
  MaxCalls = 2
  MaxNow = 8
SPECIFICATION MCSpec
INVARIANTS OneAtATime NumbersFit NotLate OnePacketPerStep Moved
CHECK_DEADLOCK FALSE
