SPECIFICATION Spec
CONSTANTS
  N = 4
  Alphabet = {0, 1, 66, 255}
INVARIANT Unambiguous
CHECK_DEADLOCK FALSE
