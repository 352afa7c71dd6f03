CONSTANT Export = TRUE
SPECIFICATION Spec
INVARIANTS Tables RoundTrip Nested Packing PrintRow
CHECK_DEADLOCK FALSE
