SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 31, 32, 33, 64}
  Steps = 4
INVARIANTS Complete NoClash Inside SetOk
CHECK_DEADLOCK FALSE
