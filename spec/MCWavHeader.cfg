SPECIFICATION Spec
CONSTANTS Rates = {0, 8000, 16000, 44100, 192000}
 Widths = {8, 16, 24, 32, 64}
 Bytes = {0, 1, 2, 8, 16, 32, 68, 70, 82, 97, 127, 128, 255}
INVARIANT Inv
