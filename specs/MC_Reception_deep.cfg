CONSTANTS
  Window = 10
SPECIFICATION MSpec
CONSTRAINT Small
INVARIANTS TypeOK NoDuplicates NotReinterviewed
CHECK_DEADLOCK FALSE
