SPECIFICATION Spec
CONSTANTS
  Bytes <- AllBytes
  MaskBytes <- AllBytes
INVARIANTS Restored OnlyProtectedBits HiddenIsMasked TwiceIsOnce BareStays TypeReadable
CHECK_DEADLOCK FALSE
