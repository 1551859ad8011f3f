SPECIFICATION Spec
CONSTANTS Kind = "any"
INVARIANTS PublicDerivation Hardened Again Ancestry InRange Siblings ReadsBack Noticed Lengths Emit
CHECK_DEADLOCK FALSE
