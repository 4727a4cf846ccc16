SPECIFICATION GenSpec
CONSTANTS Slots = {1, 2, 3}
INVARIANT Emit
CHECK_DEADLOCK FALSE
