SPECIFICATION Spec
CONSTANTS
  Den = 84
  LMax = 6
  MaxEl = 3
INVARIANTS Sum Dipole Power
CHECK_DEADLOCK FALSE
