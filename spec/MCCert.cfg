SPECIFICATION Spec
CONSTANTS MaxCh = 1 Deep = TRUE
INVARIANTS RoundTrip Cut Canonical
CHECK_DEADLOCK FALSE
