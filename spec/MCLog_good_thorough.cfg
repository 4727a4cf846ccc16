SPECIFICATION Spec
CONSTANTS Kind = "good"  NMsg = 2  MaxLevel = 14
CONSTRAINT Bound
INVARIANTS InvGood InvPieces InvTwo
CHECK_DEADLOCK FALSE
