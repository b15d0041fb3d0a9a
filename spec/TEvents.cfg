SPECIFICATION Spec
INVARIANT Judged
POSTCONDITION AllSeen
CHECK_DEADLOCK FALSE
