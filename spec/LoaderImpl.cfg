SPECIFICATION Spec
CONSTANTS MaxFaults = 2
INVARIANTS Outcome Right NothingLeft
