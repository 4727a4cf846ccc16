SPECIFICATION GenSpec
CONSTANTS Small = FALSE  MaxLevel = 99
INVARIANTS Emit
CHECK_DEADLOCK FALSE
