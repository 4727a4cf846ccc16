SPECIFICATION Spec
CONSTANTS
  Vals <- VQ
  ScaleLists <- SL
  Limit = 2
  Thr = 2000
INVARIANTS Conserved Components NotDisplaced StopsOnlyBelow
CHECK_DEADLOCK FALSE
