SPECIFICATION Spec
CONSTANTS Values = {2047, 0}  Longest = 10
INVARIANTS Concatenation Announced Lossless Emit
CHECK_DEADLOCK FALSE
