SPECIFICATION Spec
CONSTANTS
  Length = 20
INVARIANT Emit
CONSTRAINT Going
CHECK_DEADLOCK FALSE
