SPECIFICATION Spec
CONSTANTS
  Vals <- ValsQ
  Side <- SideQ
  Thr = 1
  Limit = 4
INVARIANTS Conserved StopsOnlyBelow NeverPastStop
CHECK_DEADLOCK FALSE
