SPECIFICATION Spec
CONSTANTS Values = {0, 2047, 1365, 1}  Longest = 6
INVARIANTS Concatenation Announced Lossless Whole Emit
CHECK_DEADLOCK FALSE
