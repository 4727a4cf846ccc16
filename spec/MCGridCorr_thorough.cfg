SPECIFICATION Spec
CONSTANTS
  N = 14
  Cuts = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
INVARIANTS Tiled Cancel
CHECK_DEADLOCK FALSE
