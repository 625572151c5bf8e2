SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Ordered Progress ErrInside PrefixStable
CHECK_DEADLOCK FALSE
