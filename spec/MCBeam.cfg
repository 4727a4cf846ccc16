SPECIFICATION Spec
CONSTANTS
  Den = 24
  LMax = 4
  MaxEl = 2
INVARIANTS Sum Dipole Power
CHECK_DEADLOCK FALSE
