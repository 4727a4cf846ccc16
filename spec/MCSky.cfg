SPECIFICATION MCSpec
CONSTANTS MaxLevel = 7
CONSTRAINT Bound
VIEW View
INVARIANTS InvWhole
PROPERTIES Own CopyIs
CHECK_DEADLOCK FALSE
