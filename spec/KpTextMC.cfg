SPECIFICATION Spec
CONSTANT Longest = 3
INVARIANTS RoundTrips Located Counted Alphabet Others Emit
CHECK_DEADLOCK FALSE
