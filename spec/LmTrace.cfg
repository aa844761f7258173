SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
