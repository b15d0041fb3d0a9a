SPECIFICATION Spec
CONSTANT MaxParams = 3
INVARIANTS ReadsBack Fit NoShorterReading Emit
CHECK_DEADLOCK FALSE
