SPECIFICATION Spec
CONSTANTS Longest = 4
INVARIANTS Judged Versions Orderless Ignored RoundTrip LastWins Emit
CHECK_DEADLOCK FALSE
