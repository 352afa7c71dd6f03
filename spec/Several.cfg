SPECIFICATION Spec
CONSTANTS
  MaxSlice = 2
  Less = 0
  MaxLen = 20
  Boundaries <- SeveralBoundaries
INVARIANTS Delivered Nested
PROPERTIES Alone1 Alone2 Apart
CHECK_DEADLOCK FALSE
