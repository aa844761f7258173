SPECIFICATION TraceSpec
CONSTANTS Shift = 160
 Length = 400
 Period = 20
 Beam = 64
 MaxActive = 30000
 LlUnit = 4096
 CostUnit = 4
POSTCONDITION TraceAccepted
