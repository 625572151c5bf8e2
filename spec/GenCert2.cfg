SPECIFICATION Spec
CONSTANTS MaxCh = 2 Deep = FALSE
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
