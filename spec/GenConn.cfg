SPECIFICATION Spec
INVARIANTS Alone Shared Emit
CHECK_DEADLOCK FALSE
