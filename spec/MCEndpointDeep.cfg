SPECIFICATION Spec
CONSTANTS
  Base = 2
  Size = 3
  MaxLen = 2
  MaxSent = 2
  MaxInstalls = 1
  MaxReads = 2
  MaxMoves = 3
  Conns = {1, 2}
INVARIANTS Authentic NonceOnce Strict Arrives
PROPERTIES NoTrace Isolated
CHECK_DEADLOCK FALSE
