SPECIFICATION Spec
CONSTANTS
  Cfgs <- C0
  K = 0
  Xs = {1}
INVARIANTS Forward Backward Inverse Periodic Placed
CHECK_DEADLOCK FALSE
