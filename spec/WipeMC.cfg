SPECIFICATION Spec
CONSTANTS Names = {1, 2, 3}  Places = {"box", "own", "vec", "place"}  Cells = 2
INVARIANTS Gone Whole
CHECK_DEADLOCK FALSE
