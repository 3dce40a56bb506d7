SPECIFICATION Spec
CONSTANTS
  T = 2
  OX = 1
  OY = 0
  XS <- NegXS
  YS <- NegYS
  MaxAdd = 2
  MaxOps = 3
  BUG = ""
INVARIANT Inv
PROPERTY Grows
VIEW View
CHECK_DEADLOCK FALSE
