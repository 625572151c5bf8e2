SPECIFICATION Spec
INVARIANTS Severity Upwards Emit
CHECK_DEADLOCK FALSE
