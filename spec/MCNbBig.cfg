SPECIFICATION Spec
CONSTANTS
  Rows = 3
  Cols = 4
  T = 4
  Bufs = {0, 1, 2, 3, 4}
  BUG = ""
INVARIANTS Neighbours Border
CHECK_DEADLOCK FALSE
