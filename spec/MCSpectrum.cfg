SPECIFICATION Spec
INVARIANTS CosTable WinTable MelTable Bank Inverse
CHECK_DEADLOCK FALSE
