SPECIFICATION Spec
CONSTANTS MaxFrames = 3
Forms = {1, 2, 4, 8}
INVARIANTS ReadsBack NoShorterReading Canonical Extends Bounded Emit
CHECK_DEADLOCK FALSE
