SPECIFICATION Spec
CONSTANTS Threads = {0, 1}  Steps = 5  Draws = {2, 4}  MayFail = TRUE
INVARIANTS AsAlone NeverShared FullStrength Emit
PROPERTIES Finish
CHECK_DEADLOCK FALSE
