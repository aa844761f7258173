SPECIFICATION Spec
CONSTANTS MaxDim = 2
 Vals = {0, 1, 200}
INVARIANT RoundTrip
INVARIANT Prefix
