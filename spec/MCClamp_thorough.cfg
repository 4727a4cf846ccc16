SPECIFICATION Spec
CONSTANTS
  X = 3
  F0 = 3
  DF = 2
  MaxB = 6
  MaxCh = 6
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
