SPECIFICATION Spec
CONSTANTS
  Sizes = {3, 4, 5, 6, 9, 10}
  Ks = {1, 2, 3, 4, 5}
  Ovs = {1, 2, 3, 4, 7}
INVARIANTS Represents FracRange Footprint WholeCell
PROPERTIES Gradual
CHECK_DEADLOCK FALSE
