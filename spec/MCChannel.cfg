SPECIFICATION Spec
CONSTANTS MaxParts = 2
Flips = {1, 128}
AllForms = {1, 8}
Mask <- TotalMask
INVARIANTS Arrives Authentic Spoilt NothingAfterOneRtt NotMore Emit
CHECK_DEADLOCK FALSE
