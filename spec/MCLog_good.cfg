SPECIFICATION Spec
CONSTANTS Kind = "good"  NMsg = 1  MaxLevel = 99
CONSTRAINT Bound
INVARIANTS InvGood InvPieces InvTwo
CHECK_DEADLOCK FALSE
