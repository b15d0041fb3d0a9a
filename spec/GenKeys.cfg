SPECIFICATION Spec
CONSTANTS
  Length = 40
  Secrets = 4
  None = 0
INVARIANT Emit
CONSTRAINT Going
CHECK_DEADLOCK FALSE
