SPECIFICATION GenSpec
CONSTANTS MaxSize = 2  MaxLevel = 99
INVARIANT Emit
CHECK_DEADLOCK FALSE
