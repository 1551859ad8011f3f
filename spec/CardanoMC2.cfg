SPECIFICATION Spec
CONSTANTS Signing = TRUE
INVARIANTS Signs Emit
CHECK_DEADLOCK FALSE
