SPECIFICATION Spec
CONSTANTS NB = 2
 DoPrint = FALSE
INVARIANT CacheExact
INVARIANT Arpa
INVARIANT Emit
