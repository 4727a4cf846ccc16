SPECIFICATION SweepSpec
CONSTANTS Slots = {1, 2, 3}
INVARIANT SweepEmit
CHECK_DEADLOCK FALSE
