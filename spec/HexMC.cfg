SPECIFICATION Spec
CONSTANTS Symbols = {48, 57, 97, 102, 65, 70, 32, 10, 103, 120, 47, 58}  Longest = 3
INVARIANTS Inverse Lossless Blanks Foreign Emit
CHECK_DEADLOCK FALSE
