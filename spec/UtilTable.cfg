SPECIFICATION Spec
CONSTANTS
  Export = TRUE
  Delimiters = {59, 44, 38, 58, 124, 32, 97, 61, 47, 34, 92, 9, 65, 90, 45, 0, 200, 255}
INVARIANTS TypeInv StepInv PrintRow
CHECK_DEADLOCK FALSE
