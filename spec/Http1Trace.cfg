SPECIFICATION TSpec
CONSTANTS
  MaxLen = 100000000
  Boundaries <- TraceBoundaries
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
