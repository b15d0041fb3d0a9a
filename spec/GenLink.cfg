SPECIFICATION Spec
CONSTANTS Length = 40
INVARIANT Emit
CONSTRAINT Going
CHECK_DEADLOCK FALSE
