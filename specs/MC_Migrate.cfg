SPECIFICATION Spec
CONSTANT Newest = 13
INVARIANTS TypeOK Atomic Lossless NothingMadeUp Stable
CHECK_DEADLOCK FALSE
