SPECIFICATION Spec
CONSTANT Far = 14
INVARIANTS Answer Largest Tried Short Same
PROPERTIES Ends
CHECK_DEADLOCK FALSE
