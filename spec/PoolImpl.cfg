SPECIFICATION Spec
CONSTANTS Depth = 6
 MaxObj = 5
 BlockSize = 2
 GcPool = TRUE
 DoPrint = FALSE
INVARIANT Inv
INVARIANT Emit
PROPERTY Refines
VIEW View
