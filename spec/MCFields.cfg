SPECIFICATION Spec
CONSTANTS
  MaxFields = 2
  Lengths = {0, 1, 2, 3, 4, 7, 8, 9, 16, 20, 22, 28}
INVARIANTS Accounted NothingAdded StopsForWant Stable Possible Emit
CHECK_DEADLOCK FALSE
