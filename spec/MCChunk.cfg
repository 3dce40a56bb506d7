SPECIFICATION Spec
CONSTANTS
  Rows = 3
  Cols = 3
  Ls = {1, 2, 3}
  CPT = 2
  BUG = ""
INVARIANTS Complete Small
CHECK_DEADLOCK FALSE
