SPECIFICATION Spec
CONSTANTS Mgrs = {"m", "n"}  Calls = {"seed", "mnem", "chpw", "add", "seal", "gen"}  Most = 3  Chunks = {0, 4}
INVARIANTS NeverTwice NotMadeUp Kept Enough
CHECK_DEADLOCK FALSE
