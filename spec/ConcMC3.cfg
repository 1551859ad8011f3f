SPECIFICATION Spec
CONSTANTS Threads = {0, 1, 2}  Steps = 3  Draws = {2}  MayFail = FALSE
INVARIANTS AsAlone NeverShared FullStrength Emit
PROPERTIES Finish
CHECK_DEADLOCK FALSE
