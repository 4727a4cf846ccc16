SPECIFICATION GenSpec
CONSTANTS Small = FALSE  MaxLevel = 99
INVARIANTS InvTree InvNames InvTime InvRoot Emit
CHECK_DEADLOCK FALSE
