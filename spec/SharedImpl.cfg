SPECIFICATION Spec
CONSTANTS Utts = {1, 2, 3}
 MaxCalls = 2
 Data = {1, 2}
 Scratch = "own"
INVARIANTS NoRace Independent
