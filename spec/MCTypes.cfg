SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANTS Grows Listed NumbersMix OnePer
CHECK_DEADLOCK FALSE
