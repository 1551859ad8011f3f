SPECIFICATION Spec
CONSTANTS Longest = 3
INVARIANTS Judged Versions Orderless Ignored RoundTrip LastWins Emit
CHECK_DEADLOCK FALSE
