SPECIFICATION Spec
CONSTANTS Kind = "scratch"  NFun = 3  NVar = 3  MaxLevel = 15
CONSTRAINT Bound
INVARIANTS InvExact InvPure
CHECK_DEADLOCK FALSE
