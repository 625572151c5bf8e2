SPECIFICATION Spec
CONSTANTS MaxLen = 8 NFields = 22 Keys = {1, 2, 3} MaxCerts = 4
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
