SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
INVARIANT TraceInv
