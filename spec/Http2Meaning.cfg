SPECIFICATION Spec
CONSTANTS
  MaxLen = 20
  MaxPayload = 10
  More = 1
INVARIANTS Same Between
VIEW View
CHECK_DEADLOCK FALSE
