CONSTANTS
  Tries = 5
  Pause = 500
  Short = 5000
  Long = 28000
  LeaveShort = 7000
  LeaveLong = 30000
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Judge
CHECK_DEADLOCK FALSE
