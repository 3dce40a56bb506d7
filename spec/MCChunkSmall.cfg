SPECIFICATION Spec
CONSTANTS
  Rows = 2
  Cols = 3
  Ls = {1, 2, 3}
  CPT = 2
  BUG = ""
INVARIANTS Complete Small
CHECK_DEADLOCK FALSE
