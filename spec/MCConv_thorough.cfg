SPECIFICATION Spec
CONSTANTS
  MaxN1 = 3
  MaxN2 = 2
  Vals <- V2
INVARIANTS SpreadIsSum CyclicIsSum
CHECK_DEADLOCK FALSE
