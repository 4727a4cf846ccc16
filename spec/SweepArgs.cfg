SPECIFICATION SweepSpec
CONSTANTS Pairs = FALSE
INVARIANT SweepEmit
CHECK_DEADLOCK FALSE
