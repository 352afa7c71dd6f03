SPECIFICATION Spec
CONSTANTS
  MaxLen = 5000
  Seed <- ConnSeed
  Sizes <- ConnSizes
  Nums <- ConnNums
  Count = 4800
  Chains = 8
  Export = TRUE
INVARIANTS Understood Ready PrintMsg
CHECK_DEADLOCK FALSE
