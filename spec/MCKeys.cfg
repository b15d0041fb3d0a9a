SPECIFICATION Spec
CONSTANTS
  None = None
  MaxPackets = 2
  MaxInstalls = 2
INVARIANTS SealedWithOwnSpace ReadWithOwnSpace NotBeforeKeys
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
