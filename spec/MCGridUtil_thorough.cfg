SPECIFICATION Spec
CONSTANTS
  MaxG = 12
  MaxOff = 40
INVARIANTS Injective Periodic Centre Restored Kern Nzero
CHECK_DEADLOCK FALSE
