CONSTANTS
  Tries = 2
  Pause = 1
  Short = 2
  Long = 4
  LeaveShort = 3
  LeaveLong = 5
  MaxT = 3
  MaxObj = 2
  Nn = {"x"}
  Rich = TRUE
  Kinds = {"fail"}
SPECIFICATION MSpec
CONSTRAINT Small
INVARIANTS OneRecord OnlyTable NotWhileRemoved RemovalsBounded Bounded CompleteIsComplete
PROPERTIES KeepsWhatItKnows FailsAfterAllTries LeavesTableByRemoval
CHECK_DEADLOCK FALSE
