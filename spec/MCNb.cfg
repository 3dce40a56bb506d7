SPECIFICATION Spec
CONSTANTS
  Rows = 3
  Cols = 3
  T = 3
  Bufs = {0, 1, 2}
  BUG = ""
INVARIANTS Neighbours Border
CHECK_DEADLOCK FALSE
