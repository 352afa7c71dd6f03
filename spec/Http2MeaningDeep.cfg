SPECIFICATION Spec
CONSTANTS
  MaxLen = 20
  MaxPayload = 10
  More = 2
INVARIANTS Same Between
VIEW View
CHECK_DEADLOCK FALSE
