SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17}
  Ks = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  Ovs = {1, 2, 3, 4, 5, 7, 8, 9, 16}
INVARIANTS Represents FracRange Footprint WholeCell
PROPERTIES Gradual
CHECK_DEADLOCK FALSE
