SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Codes = {97, 32, 10, 91, 93}
  Greedy = FALSE
  DoPrint = FALSE
INVARIANTS Same Laws Emit
CHECK_DEADLOCK FALSE
