SPECIFICATION FairSpec
CONSTANTS
  Ids = {"a", "b"}
  Foreign = {"x"}
  MaxSent = 3
  MaxOpened = 2
INVARIANTS TypeOK
PROPERTIES Served
CHECK_DEADLOCK FALSE
