SPECIFICATION Spec
CONSTANTS Pairs = FALSE
INVARIANTS InvStatus InvNoLateWrite InvWriteMeansOk
PROPERTIES Sticky
CHECK_DEADLOCK FALSE
