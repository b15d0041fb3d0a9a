SPECIFICATION Spec
CONSTANTS N = 4  Length = 24
INVARIANT Emit
CONSTRAINT Going
CHECK_DEADLOCK FALSE
