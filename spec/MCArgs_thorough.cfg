SPECIFICATION Spec
CONSTANTS Pairs = TRUE
INVARIANTS InvStatus InvNoLateWrite InvWriteMeansOk
PROPERTIES Sticky
CHECK_DEADLOCK FALSE
