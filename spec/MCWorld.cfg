SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxPool = 4
  Rich = TRUE
INVARIANTS Sound NoForgery
PROPERTY NoTrust
VIEW View
CHECK_DEADLOCK FALSE
