SPECIFICATION Spec
CONSTANTS
  Chunk = 3
  MaxLen = 6
  Codes = {97, 10, 13}
INVARIANTS Prefix Complete RunsAgree
PROPERTY Terminates
CHECK_DEADLOCK FALSE
