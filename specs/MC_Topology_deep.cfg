CONSTANTS
  Tries = 3
  Pause = 1000
  Timeout = 5000
  MaxScans = 2
  MaxSwitch = 2
  MaxTime = 30000
  MaxBad = 2
SPECIFICATION MCSpec
CONSTRAINT Bound
INVARIANTS Whole NeverUnsupported OnlyRouters ThreeTries LoopAlive StopStops FindsUnknown CallersTold
CHECK_DEADLOCK FALSE
