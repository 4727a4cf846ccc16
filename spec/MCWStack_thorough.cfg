SPECIFICATION Spec
CONSTANTS
  Rows = 2
  Ch = 2
  Grids = 2
  Planes = 2
  Workers = 3
  MinChunk = 1
  Critical = TRUE
  Locked = TRUE
INVARIANTS PlaneDone NoTwice Exclusive OwnChunk AllDone Tiling
PROPERTY Ends
CHECK_DEADLOCK FALSE
