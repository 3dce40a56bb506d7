SPECIFICATION Spec
CONSTANTS
  Rows = 2
  Cols = 5
  Ls = {1, 2, 3, 4, 5}
  CPT = 2
  BUG = ""
INVARIANTS Complete Small
CHECK_DEADLOCK FALSE
