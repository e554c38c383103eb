CONSTANTS
  WdPeriod = 30000
  Gap = 1000
  MaxCalls = 2
  MaxBad = 2
  MaxTime = 75000
  MaxTicks = 2
  Confs = 2
SPECIFICATION MCSpec
CONSTRAINT Bound
INVARIANTS Useful AllComplete NeverOverwritten SameNetwork FailedIsOff StopsAtOnce LostOnce
CHECK_DEADLOCK FALSE
