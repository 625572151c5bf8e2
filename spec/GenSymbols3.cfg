SPECIFICATION Spec
CONSTANTS MaxLen = 3 NNames = 2 NCats = 2 NVals = 2 NTabs = 1
INVARIANTS Unique Emit
PROPERTIES Kept OneTable
CHECK_DEADLOCK FALSE
