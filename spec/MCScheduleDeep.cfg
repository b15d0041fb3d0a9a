SPECIFICATION Spec
CONSTANTS Letters = {0, 1, 128, 255}
MaxFree = 6
Lengths = {7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
Extract <- TermExtract
ExpandLabel <- TermExpand
INVARIANTS Agree Separate OwnKeys Later Emit
CHECK_DEADLOCK FALSE
