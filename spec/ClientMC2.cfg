SPECIFICATION Spec
CONSTANTS Slots = {"m", "m2", "k", "k2", "d", "d2", "e", "e2", "b"}
INVARIANTS NoLeak NoDangling Once OneOutput Distinct
CHECK_DEADLOCK FALSE
