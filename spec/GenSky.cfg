SPECIFICATION GenSpec
CONSTANTS MaxLevel = 99
INVARIANTS Emit
CHECK_DEADLOCK FALSE
