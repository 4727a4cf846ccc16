SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 3, 4}
  Coords <- CoordsThorough
  NSamples = 3
INVARIANTS GridIsSum Conserved InsideIffInRange
CHECK_DEADLOCK FALSE
