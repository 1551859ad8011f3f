SPECIFICATION Spec
CONSTANTS Signing = FALSE
INVARIANTS PublicDerivation Hardened Again Clamped Sized Siblings Endian Emit
CHECK_DEADLOCK FALSE
