SPECIFICATION Spec
INVARIANTS Served Spelled Refusal PrintsBack Emit
PROPERTIES OneToOne
CHECK_DEADLOCK FALSE
