SPECIFICATION MCSpec
CONSTANTS MaxLevel = 20
CONSTRAINT Bound
VIEW View
INVARIANTS InvWhole
PROPERTIES Own CopyIs
CHECK_DEADLOCK FALSE
