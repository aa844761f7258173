SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxArg = 2
  Codes = {123, 125, 32}
  Rescan = FALSE
  Ops = {"trim", "split", "format", "copy"}
INVARIANTS Right Laws
CHECK_DEADLOCK FALSE
