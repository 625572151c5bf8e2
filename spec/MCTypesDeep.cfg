SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Grows Listed NumbersMix OnePer
CHECK_DEADLOCK FALSE
