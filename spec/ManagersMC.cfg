SPECIFICATION Spec
CONSTANTS Nets = {"8000003c", "80000717", "0000beef"}  Mins = {96, 128, 160}  Maxs = {128, 256}  Longest = 3
INVARIANTS Supports Orderless Required EmptyRefused Emit
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
