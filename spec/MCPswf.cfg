SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 4, 5, 6, 7, 8, 16, 17}
  Steps = 3
INVARIANTS Complete NoClash Inside SetOk
CHECK_DEADLOCK FALSE
