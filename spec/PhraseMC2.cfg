SPECIFICATION Spec
CONSTANTS TypedIn = {"English", "Japanese", "ChineseSimplified", "French"}
  Slips = 2  Longest = 25  Starts = {5}
INVARIANTS AsSpelled Respelled Elsewhere Named Emit
CHECK_DEADLOCK FALSE
