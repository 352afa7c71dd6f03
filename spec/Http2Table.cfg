SPECIFICATION Spec
CONSTANTS
  MaxLen = 9
  Export = TRUE
INVARIANTS TypeInv StepInv ResyncInv PrintRow
CHECK_DEADLOCK FALSE
