SPECIFICATION Spec
CONSTANTS
  Ids = {"a", "b"}
  Foreign = {"x"}
  MaxSent = 4
  MaxOpened = 3
INVARIANTS TypeOK ExactlyOnceInOrder RightKeys
PROPERTIES OpensAll Untouched OneAtATime FreshStartsEmpty
CHECK_DEADLOCK FALSE
