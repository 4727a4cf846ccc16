SPECIFICATION Spec
CONSTANTS
  MaxC = 3
  Den = 8
  R = 1
  RaDen = 12
  Ang <- Ang2
INVARIANTS Sum Dir
CHECK_DEADLOCK FALSE
