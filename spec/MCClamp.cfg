SPECIFICATION Spec
CONSTANTS
  X = 2
  F0 = 2
  DF = 2
  MaxB = 3
  MaxCh = 4
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
