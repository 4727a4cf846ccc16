SPECIFICATION Spec
CONSTANTS
  Shapes <- Sh22
  Vals <- V3
INVARIANTS Separable RoundTrip Centred
CHECK_DEADLOCK FALSE
