SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
