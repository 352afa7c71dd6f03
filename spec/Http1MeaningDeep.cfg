SPECIFICATION Spec
CONSTANTS
  MaxLen = 300
  Less = 0
  Boundaries <- MeaningBoundaries
INVARIANT Same
VIEW View
CHECK_DEADLOCK FALSE
