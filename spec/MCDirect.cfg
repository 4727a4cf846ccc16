SPECIFICATION Spec
CONSTANTS
  T = 10
  N = 3
  U <- UU
INVARIANTS Order Centre Cells Adjoint
CHECK_DEADLOCK FALSE
