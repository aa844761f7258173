SPECIFICATION Spec
CONSTANTS
  MaxT = 6
  MaxOff = 2
INVARIANTS Same Cuts
CHECK_DEADLOCK FALSE
