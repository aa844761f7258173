SPECIFICATION Spec
CONSTANTS MaxT = 5
 MaxCtx = 2
 MaxChunk = 3
 ClearQueue = TRUE
 FrameVals = {0, 1}
INVARIANT Refines
INVARIANT Complete
INVARIANT QueueBounded
