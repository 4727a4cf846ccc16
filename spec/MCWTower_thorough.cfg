SPECIFICATION Spec
CONSTANTS
  Sizes <- S2
  Supports <- SS
  Ov = 20
  Lim = 9
  Pix <- P2
INVARIANTS Partition Footprint Rows Accurate Moved
CHECK_DEADLOCK FALSE
