SPECIFICATION Spec
CONSTANTS MaxCh = 2 Deep = TRUE
INVARIANTS RoundTrip Cut Canonical
CHECK_DEADLOCK FALSE
