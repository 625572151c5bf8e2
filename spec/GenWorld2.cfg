SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  MaxPool = 4
  Rich = TRUE
INVARIANTS Sound NoForgery Emit
PROPERTY NoTrust
CHECK_DEADLOCK FALSE
