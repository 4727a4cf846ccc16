SPECIFICATION Spec
CONSTANTS
  Vals <- ValsT
  Side <- SideQ
  Thr = 1
  Limit = 5
INVARIANTS Conserved StopsOnlyBelow NeverPastStop
CHECK_DEADLOCK FALSE
