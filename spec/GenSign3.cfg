SPECIFICATION Spec
CONSTANTS MaxLen = 3 NFields = 1 Keys = {1, 2} MaxCerts = 2
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
