SPECIFICATION Spec
CONSTANTS Values = {0, 2047}  Lengths = {9, 12, 15, 18, 21, 24}  Stride = 16
INVARIANTS Bijection OnePerEntropy Fits Emit
CHECK_DEADLOCK FALSE
