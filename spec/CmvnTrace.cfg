SPECIFICATION TraceSpec
CONSTANTS Window = 600
 GlobalFrames = 200
 Unit = 1024
POSTCONDITION TraceAccepted
