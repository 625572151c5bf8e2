SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Monotone Forced Swap NeverFails
CHECK_DEADLOCK FALSE
