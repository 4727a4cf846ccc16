SPECIFICATION Spec
CONSTANTS Small = TRUE  MaxLevel = 6
CONSTRAINT Bound
INVARIANTS InvTree InvNames InvTime InvRoot
CHECK_DEADLOCK FALSE
