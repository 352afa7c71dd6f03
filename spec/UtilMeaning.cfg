SPECIFICATION Spec
CONSTANTS
  Less = 1
INVARIANT Same
VIEW View
CHECK_DEADLOCK FALSE
