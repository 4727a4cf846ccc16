SPECIFICATION Spec
CONSTANTS MaxH = 3  MaxB = 2  Small = TRUE  MaxLevel = 5
CONSTRAINT Bound
INVARIANTS InvType InvViews InvOwner
CHECK_DEADLOCK FALSE
