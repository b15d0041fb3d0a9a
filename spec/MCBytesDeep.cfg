SPECIFICATION Spec
CONSTANTS
Alphabet = {0, 1, 2, 6, 8, 15, 24, 28, 64, 128, 192, 255}
MaxLen = 3
INVARIANTS FramesMeanTheSame NothingFromNowhere HeaderIsItself NoShorterHeader IntegerIsItself Emit
CHECK_DEADLOCK FALSE
