SPECIFICATION Spec
CONSTANTS
  MaxLabel = 4
  MaxContext = 3
  Sizes = {1, 12, 16, 31, 32, 33, 64, 255, 256, 300}
INVARIANTS Fits Unambiguous WholeLength Agrees Emit
CHECK_DEADLOCK FALSE
