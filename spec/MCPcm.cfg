SPECIFICATION Spec
CONSTANTS Depth = 4
 Bytes = {0, 1, 127, 128, 255}
 MaxChunk = 2
 DoPrint = FALSE
INVARIANT PcmInv
INVARIANT Emit
VIEW View
