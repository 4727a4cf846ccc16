SPECIFICATION Spec
CONSTANTS
  N = 9
  Cuts = {1, 2, 3, 5, 6, 8}
INVARIANTS Tiled Cancel
CHECK_DEADLOCK FALSE
