CONSTANTS
  Timeout = 5000
  MaxOps = 2
  MaxUser = 2
SPECIFICATION MCSpec
INVARIANTS Mutual ListenersKnow NotOfTheGone
PROPERTY Refusals
CHECK_DEADLOCK FALSE
