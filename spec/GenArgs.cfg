SPECIFICATION GenSpec
CONSTANTS Pairs = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
