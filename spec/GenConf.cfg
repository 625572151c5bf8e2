SPECIFICATION Spec
INVARIANTS Sides Specific Emit
CHECK_DEADLOCK FALSE
