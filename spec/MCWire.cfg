SPECIFICATION Spec
CONSTANTS MaxFrames = 2
Forms = {1, 8}
INVARIANTS ReadsBack NoShorterReading Canonical Extends Bounded Emit
CHECK_DEADLOCK FALSE
