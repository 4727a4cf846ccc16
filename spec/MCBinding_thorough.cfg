SPECIFICATION MCSpec
CONSTANTS Slots = {1, 2, 3}
INVARIANTS InvQuiet InvWhole InvRaised InvOnce InvHeld InvOwn
CHECK_DEADLOCK FALSE
