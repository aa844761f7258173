SPECIFICATION Spec
CONSTANTS Beam = 3
 MaxActive = 30000
 Depth = 2
 UseLm = FALSE
 DoPrint = FALSE
 Family = 1
INVARIANT Definition
INVARIANT TokensAreReached
INVARIANT BestIsMin
INVARIANT PrunedSearchReportable
INVARIANT VitInv
INVARIANT Emit
