SPECIFICATION Spec
CONSTANT Spread = 3
INVARIANTS KeepsDigits Closest Recovers SafeIsSafe Monotone Emit
CHECK_DEADLOCK FALSE
