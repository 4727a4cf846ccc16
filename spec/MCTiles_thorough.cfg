SPECIFICATION Spec
CONSTANTS
  MaxG = 8
  Samples = {1, 2}
INVARIANTS NoDoubleUse InBucket Complete TouchedExactly RoomIff
CHECK_DEADLOCK FALSE
