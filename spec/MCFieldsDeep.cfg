SPECIFICATION Spec
CONSTANTS
  MaxFields = 3
  Lengths = {0, 2, 5, 9, 17, 21, 24, 41, 44}
INVARIANTS Accounted NothingAdded StopsForWant Stable Possible Emit
CHECK_DEADLOCK FALSE
