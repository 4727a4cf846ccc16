SPECIFICATION Spec
CONSTANTS
  MaxG = 7
  MaxOff = 16
INVARIANTS Injective Periodic Centre Restored Kern Nzero
CHECK_DEADLOCK FALSE
