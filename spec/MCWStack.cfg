SPECIFICATION Spec
CONSTANTS
  Rows = 4
  Ch = 1
  Grids = 2
  Planes = 1
  Workers = 3
  MinChunk = 1
  Critical = TRUE
  Locked = TRUE
INVARIANTS PlaneDone NoTwice Exclusive OwnChunk AllDone Tiling
PROPERTY Ends
CHECK_DEADLOCK FALSE
