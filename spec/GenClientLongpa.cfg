SPECIFICATION Spec
CONSTANTS MaxLen = 12 Side = "pa"
INVARIANTS OnlyGood Remembers Emit
CHECK_DEADLOCK FALSE
