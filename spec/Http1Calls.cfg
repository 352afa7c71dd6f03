SPECIFICATION Spec
CONSTANTS
  MaxSlice = 3
  Less = 1
  MaxLen = 20
  Boundaries <- CallBoundaries
INVARIANTS Eventual Order Count Ends Progress
PROPERTY Final
CHECK_DEADLOCK FALSE
