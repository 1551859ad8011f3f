SPECIFICATION Spec
CONSTANTS Kind = "paths"
INVARIANTS Signs Recovers Emit
CHECK_DEADLOCK FALSE
