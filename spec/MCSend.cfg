SPECIFICATION Spec
CONSTANTS MaxFrames = 2
Powers = {0, 7, 8, 15, 16, 24, 31, 32, 40, 61}
Mask <- TotalMask
INVARIANTS Arrives Exact Private SomeLength Emit
CHECK_DEADLOCK FALSE
