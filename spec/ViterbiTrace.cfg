SPECIFICATION TraceSpec
CONSTANTS Beam = 1024
 MaxActive = 30000
POSTCONDITION TraceAccepted
INVARIANT VitInv
