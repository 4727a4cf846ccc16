SPECIFICATION Spec
CONSTANTS
  MaxC = 4
  Den = 12
  R = 1
  RaDen = 16
  Ang <- Ang2
INVARIANTS Sum Dir
CHECK_DEADLOCK FALSE
