SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 5}
  NCh = 3
  NT = 3
  Ths = {7}
INVARIANTS Within Steady Wider Scale
PROPERTIES Grow
CHECK_DEADLOCK FALSE
