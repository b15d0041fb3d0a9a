SPECIFICATION Spec
CONSTANT None = 0
INVARIANT Report
CHECK_DEADLOCK FALSE
