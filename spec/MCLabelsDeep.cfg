SPECIFICATION Spec
CONSTANTS
  MaxLabel = 6
  MaxContext = 4
  Sizes = {1, 12, 16, 31, 32, 33, 64, 255, 256, 300}
INVARIANTS Fits Unambiguous WholeLength Agrees Emit
CHECK_DEADLOCK FALSE
