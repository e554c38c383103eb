CONSTANTS
  Timeout = 5000
  MaxOps = 1
  MaxUser = 3
SPECIFICATION MCSpec
INVARIANTS Mutual ListenersKnow NotOfTheGone
PROPERTY Refusals
CHECK_DEADLOCK FALSE
