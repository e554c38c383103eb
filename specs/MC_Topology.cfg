CONSTANTS
  Tries = 3
  Pause = 1000
  Timeout = 5000
  MaxScans = 1
  MaxSwitch = 2
  MaxTime = 14000
  MaxBad = 1
SPECIFICATION MCSpec
CONSTRAINT Bound
INVARIANTS Whole NeverUnsupported OnlyRouters ThreeTries LoopAlive StopStops FindsUnknown CallersTold
CHECK_DEADLOCK FALSE
