SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 3, 4}
  Coords <- CoordsQuick
  NSamples = 2
INVARIANTS GridIsSum Conserved InsideIffInRange
CHECK_DEADLOCK FALSE
