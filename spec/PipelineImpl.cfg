SPECIFICATION Spec
CONSTANTS Shift = 2
 Length = 3
 Period = 2
 Beam = 64
 MaxActive = 30000
 LlUnit = 4096
 CostUnit = 4
 MaxBytes = 14
 MaxCall = 14
 MaxCtx = 2
 MaxBatch = 4
 Widths = {1, 2}
INVARIANTS RowsRight SamplesRight SnapRight NoLeftovers
