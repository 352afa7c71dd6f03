SPECIFICATION Spec
INVARIANTS SamePlace SameMeaning SameEnd Lengths
CHECK_DEADLOCK FALSE
