SPECIFICATION Spec
CONSTANTS
  Rows = 1
  Cols = 3
  TS = 2
  Ress = {1, 2}
  MinX <- MinusThree
  MinY = 5
  MaxCells = 1
  BUG = ""
INVARIANTS PointQueries Rasters Tight
CHECK_DEADLOCK FALSE
