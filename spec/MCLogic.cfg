SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Monotone Forced Swap NeverFails
CHECK_DEADLOCK FALSE
