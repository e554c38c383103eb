CONSTANTS
  Window = 10
SPECIFICATION MSpec
CONSTRAINT Smaller
INVARIANTS TypeOK NoDuplicates NotReinterviewed
CHECK_DEADLOCK FALSE
