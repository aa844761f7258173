SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
INVARIANT PcmInv
