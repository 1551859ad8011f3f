SPECIFICATION Spec
CONSTANTS Pws = {"u", "v"}  Seeds = {"s1", "s2"}  Full = TRUE
VIEW State
ACTION_CONSTRAINT Emit
INVARIANTS OnlyItsPassword DamagedOpensNever HoldsItsHistory KeepsItsSecret OpensToCommon OwnDataOpens AddIsLikeCreate
PROPERTIES ChangeKeeps AddKeeps AddNeeds
CHECK_DEADLOCK FALSE
