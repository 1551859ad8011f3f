SPECIFICATION Spec
CONSTANTS Slots = {"m", "k", "d", "s", "n", "b", "i", "e"}
INVARIANTS NoLeak NoDangling Once OneOutput Distinct
CHECK_DEADLOCK FALSE
