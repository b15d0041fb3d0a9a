SPECIFICATION Spec
CONSTANTS
  Bytes <- AllBytes
  MaskBytes <- SomeMasks
INVARIANTS Restored OnlyProtectedBits HiddenIsMasked TwiceIsOnce BareStays TypeReadable
CHECK_DEADLOCK FALSE
