SPECIFICATION Spec
CONSTANTS MaxLen = 16 NNames = 4 NCats = 5 NVals = 3 NTabs = 2
INVARIANTS Unique Emit
CHECK_DEADLOCK FALSE
