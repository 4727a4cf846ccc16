SPECIFICATION Spec
CONSTANTS
  Cfgs <- C2
  K = 1
  Xs = {0, 7}
INVARIANTS Forward Backward Inverse Periodic Placed
CHECK_DEADLOCK FALSE
