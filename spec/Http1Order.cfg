SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Boundaries <- OrderBoundaries
INVARIANT InOrder
CHECK_DEADLOCK FALSE
