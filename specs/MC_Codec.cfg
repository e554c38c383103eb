SPECIFICATION Spec
CONSTANTS
  N = 5
  Alphabet = {0, 1, 2, 65, 255}
INVARIANT RestIsTheEnd
INVARIANT UsedMeansTheSame
INVARIANT PrefixFree
INVARIANT NeedsAll
CHECK_DEADLOCK FALSE
