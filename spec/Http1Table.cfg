SPECIFICATION Spec
CONSTANTS
  MaxLen = 12
  Boundaries <- MCBoundaries
  Export = TRUE
INVARIANTS TypeInv StepInv PrintRow
CHECK_DEADLOCK FALSE
