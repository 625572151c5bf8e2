SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
