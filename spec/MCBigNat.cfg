SPECIFICATION Spec
CONSTANTS
  Nums = {0, 1, 2, 3, 9, 10, 99, 255, 256, 9999, 10000, 10001, 19999, 65535, 123456, 8388607, 8388606, 99999999, 100000000, 536870911}
  Small = {0, 1, 2, 7, 10, 255, 9999, 10000}
INVARIANTS Arith Fl
CHECK_DEADLOCK FALSE
