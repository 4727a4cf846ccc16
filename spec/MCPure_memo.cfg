SPECIFICATION Spec
CONSTANTS Kind = "memo"  NFun = 2  NVar = 2  MaxLevel = 9
CONSTRAINT Bound
INVARIANTS InvExact InvPure
CHECK_DEADLOCK FALSE
