SPECIFICATION Spec
CONSTANTS MaxFrames = 3
Powers = {0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 48, 56, 61}
Mask <- TotalMask
INVARIANTS Arrives Exact Private SomeLength Emit
CHECK_DEADLOCK FALSE
