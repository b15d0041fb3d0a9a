SPECIFICATION Spec
CONSTANTS MaxParts = 3
Flips = {1, 4, 128, 255}
AllForms = {1, 2, 4, 8}
Mask <- TotalMask
INVARIANTS Arrives Authentic Spoilt NothingAfterOneRtt NotMore Emit
CHECK_DEADLOCK FALSE
