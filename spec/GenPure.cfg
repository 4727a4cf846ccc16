SPECIFICATION GenSpec
CONSTANTS Kind = "pure"  NFun = 1  NVar = 1  MaxLevel = 99
INVARIANT Emit
CHECK_DEADLOCK FALSE
