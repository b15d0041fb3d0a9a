SPECIFICATION Spec
CONSTANTS MaxSeals = 2
Powers = {0, 7, 8, 31, 32, 61}
INVARIANTS Opens OnlyThat NonceOnce NonceShape Emit
CHECK_DEADLOCK FALSE
