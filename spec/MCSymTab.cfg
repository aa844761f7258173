SPECIFICATION Spec
CONSTANTS
  MaxLines = 4
INVARIANTS Same
CHECK_DEADLOCK FALSE
