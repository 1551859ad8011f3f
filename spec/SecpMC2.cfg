SPECIFICATION Spec
CONSTANTS Kind = "paths"
INVARIANTS PublicDerivation Hardened Again Ancestry InRange Emit
CHECK_DEADLOCK FALSE
