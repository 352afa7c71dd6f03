SPECIFICATION Spec
CONSTANTS
  Less = 0
INVARIANT Same
VIEW View
CHECK_DEADLOCK FALSE
