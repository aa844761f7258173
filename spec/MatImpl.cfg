SPECIFICATION Spec
CONSTANTS MaxDim = 2
 Pad = 4
 Depth = 3
 Vals = {1, 2}
INVARIANT Refines
INVARIANT NoAlias
INVARIANT NoLeak
INVARIANT InBlock
VIEW VMap
