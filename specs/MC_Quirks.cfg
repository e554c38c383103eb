SPECIFICATION Spec
INVARIANT MostSpecific
INVARIANT NoDuplicates
PROPERTY RemovalIsExact
CHECK_DEADLOCK FALSE
