SPECIFICATION Spec
INVARIANTS CanExport ComesBack
CHECK_DEADLOCK FALSE
