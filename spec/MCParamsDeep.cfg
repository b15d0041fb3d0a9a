SPECIFICATION Spec
CONSTANT MaxParams = 5
INVARIANTS ReadsBack Fit NoShorterReading Emit
CHECK_DEADLOCK FALSE
