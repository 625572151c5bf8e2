SPECIFICATION Spec
CONSTANTS MaxLen = 12 Side = "aa"
INVARIANTS OnlyGood Remembers Emit
CHECK_DEADLOCK FALSE
