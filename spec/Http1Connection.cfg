SPECIFICATION Spec
CONSTANTS
  MaxLen = 5000
  Boundaries <- ConnDrawn
  MBoundaries <- ConnDrawn
  MWords <- MinedWords
  Seed <- DrawSeed
  Sizes <- MinedSizes
  Count = 2800
  Chains = 8
  Export = TRUE
INVARIANTS Understood Ready PrintMsg
CHECK_DEADLOCK FALSE
