SPECIFICATION Spec
CONSTANT MaxN = 300
INVARIANTS Right NeverEmpty
PROPERTY Increasing
CHECK_DEADLOCK FALSE
