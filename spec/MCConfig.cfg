SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Codes = {97, 65, 61, 35, 32, 10}
INVARIANTS Same Meaning Robust
CHECK_DEADLOCK FALSE
