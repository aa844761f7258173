SPECIFICATION Spec
CONSTANTS MaxLines = 3
 Block = 2
INVARIANTS Right Order
