SPECIFICATION Spec
CONSTANTS
  MaxN1 = 2
  MaxN2 = 3
  Vals <- V2
INVARIANTS SpreadIsSum CyclicIsSum
CHECK_DEADLOCK FALSE
