SPECIFICATION Spec
CONSTANTS MaxSeals = 2
Powers = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 60, 61}
INVARIANTS Opens OnlyThat NonceOnce NonceShape Emit
CHECK_DEADLOCK FALSE
