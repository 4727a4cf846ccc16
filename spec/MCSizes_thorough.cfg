SPECIFICATION Spec
CONSTANT MaxN = 3000
INVARIANTS Right NeverEmpty
PROPERTY Increasing
CHECK_DEADLOCK FALSE
