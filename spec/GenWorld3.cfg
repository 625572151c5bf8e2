SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxPool = 4
  Rich = FALSE
INVARIANTS Sound NoForgery Emit
PROPERTY NoTrust
CHECK_DEADLOCK FALSE
