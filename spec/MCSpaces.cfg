SPECIFICATION Spec
CONSTANTS
  Conns = {1, 2}
  MCSpaceNames = {"initial", "handshake"}
  Limit = 2
  MaxPackets = 2
  MaxSlack = 1
INVARIANTS NoNonceTwice BehindCounter
PROPERTIES Increasing Independent
CHECK_DEADLOCK FALSE
