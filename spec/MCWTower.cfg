SPECIFICATION Spec
CONSTANTS
  Sizes <- S1
  Supports <- SS
  Ov = 10
  Lim = 2
  Pix <- PP
INVARIANTS Partition Footprint Rows Accurate Moved
CHECK_DEADLOCK FALSE
