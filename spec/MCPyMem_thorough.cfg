SPECIFICATION MCSpec
CONSTANTS Small = TRUE  MaxLevel = 6
CONSTRAINT Bound
VIEW View
INVARIANTS InvInside InvOwnPlace InvLives
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
