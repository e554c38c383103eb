SPECIFICATION Spec
INVARIANTS RoundTrip NoPart Nothing
CHECK_DEADLOCK FALSE
