SPECIFICATION Spec
CONSTANTS Length = 40
  Conns = 3
INVARIANT Emit
CONSTRAINT Going
CHECK_DEADLOCK FALSE
