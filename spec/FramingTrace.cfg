SPECIFICATION TraceSpec
CONSTANTS Shift = 160
 Length = 400
POSTCONDITION TraceAccepted
INVARIANT FrInv
