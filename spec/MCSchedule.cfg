SPECIFICATION Spec
CONSTANTS Letters = {0, 1, 128, 255}
MaxFree = 4
Lengths = {5, 7, 8, 9, 16, 19, 20}
Extract <- TermExtract
ExpandLabel <- TermExpand
INVARIANTS Agree Separate OwnKeys Later Emit
CHECK_DEADLOCK FALSE
