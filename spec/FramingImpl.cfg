SPECIFICATION Spec
CONSTANTS Shift = 2
 Length = 5
 MaxN = 12
 MaxChunk = 7
 NInst = 2
INVARIANT FrInv
INVARIANT Refines
INVARIANT Carry
