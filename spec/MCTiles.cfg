SPECIFICATION Spec
CONSTANTS
  MaxG = 6
  Samples = {1, 2}
INVARIANTS NoDoubleUse InBucket Complete TouchedExactly RoomIff
CHECK_DEADLOCK FALSE
