SPECIFICATION GenSpec
CONSTANTS MaxH = 13  MaxB = 9  Small = FALSE  MaxLevel = 99
INVARIANTS InvType InvViews InvOwner Emit
CHECK_DEADLOCK FALSE
