SPECIFICATION Spec
CONSTANTS Kind = "scratch"  NFun = 2  NVar = 2  MaxLevel = 9
CONSTRAINT Bound
INVARIANTS InvExact InvPure
CHECK_DEADLOCK FALSE
