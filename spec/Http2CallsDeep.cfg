SPECIFICATION Spec
CONSTANTS
  MaxSlice = 3
  Less = 0
  MaxLen = 20
INVARIANTS Eventual Order Count Ends Progress
PROPERTY Final
CHECK_DEADLOCK FALSE
