SPECIFICATION Spec
CONSTANTS MaxSize = 5  MaxLevel = 3
CONSTRAINT Bound
INVARIANTS InvSame InvBad InvKinds InvKeep
CHECK_DEADLOCK FALSE
