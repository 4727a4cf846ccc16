SPECIFICATION Spec
CONSTANTS
  Shapes <- Sh24
  Vals <- V2
INVARIANTS Separable RoundTrip Centred
CHECK_DEADLOCK FALSE
