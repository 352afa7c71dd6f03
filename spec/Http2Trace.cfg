SPECIFICATION TSpec
CONSTANTS
  MaxLen = 16777215
INVARIANT Exact
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
