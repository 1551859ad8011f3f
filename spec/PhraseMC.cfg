SPECIFICATION Spec
CONSTANTS TypedIn = {"English", "French", "Japanese", "Korean", "ChineseSimplified", "ChineseTraditional", "Italian", "Spanish"}
  Slips = 1  Longest = 25  Starts = {0}
INVARIANTS AsSpelled Respelled Named Emit
CHECK_DEADLOCK FALSE
