SPECIFICATION Spec
CONSTANTS
  MaxLen = 300
  Less = 2
  Boundaries <- MeaningBoundaries
INVARIANT Same
VIEW View
CHECK_DEADLOCK FALSE
