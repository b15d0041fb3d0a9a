SPECIFICATION Spec
CONSTANT Spread = 1
INVARIANTS KeepsDigits Closest Recovers SafeIsSafe Monotone Emit
CHECK_DEADLOCK FALSE
