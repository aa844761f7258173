SPECIFICATION Spec
CONSTANTS KeyNums = {0, 1, 2, 3, 4, 5, 6, 8, 11}
 Vals = {1}
 Depth = 6
 InitPrime = 1
 HashDiv = 0
 DoPrint = FALSE
INVARIANT Terminates
INVARIANT Refines
INVARIANT SizeOk
INVARIANT Emit
VIEW View
