SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Ordered Progress ErrInside PrefixStable
CHECK_DEADLOCK FALSE
