SPECIFICATION Spec
CONSTANTS
  None = None
  MaxPackets = 2
  MaxInstalls = 3
INVARIANTS SealedWithOwnSpace ReadWithOwnSpace NotBeforeKeys
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
