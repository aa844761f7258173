SPECIFICATION Spec
CONSTANTS Window = 4
 GlobalFrames = 2
 Unit = 1024
 MaxT = 7
 Vals = {0, 3, 7}
INVARIANT SlidingSum
INVARIANT Possible
