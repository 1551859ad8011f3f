SPECIFICATION Spec
CONSTANT Longest = 4
INVARIANTS RoundTrips Located Counted Alphabet Others Emit
CHECK_DEADLOCK FALSE
