SPECIFICATION Spec
CONSTANTS
  Vals <- VT
  ScaleLists <- SL
  Limit = 3
  Thr = 2000
INVARIANTS Conserved Components NotDisplaced StopsOnlyBelow
CHECK_DEADLOCK FALSE
