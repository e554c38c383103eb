CONSTANTS
  MaxOps = 2
  MaxMsgs = 1
SPECIFICATION MCSpec
INVARIANTS CacheIsTruth MarkedAsSaid RejectedReads OneInFlight OwedOnce
CHECK_DEADLOCK FALSE
