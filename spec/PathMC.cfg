SPECIFICATION Spec
INVARIANTS OneOwner AsDocumented OneFaultEach Local PrintsBack Emit
CHECK_DEADLOCK FALSE
