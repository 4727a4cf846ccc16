SPECIFICATION Spec
CONSTANT Far = 9
INVARIANTS Answer Largest Tried Short Same
PROPERTIES Ends
CHECK_DEADLOCK FALSE
