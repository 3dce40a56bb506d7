SPECIFICATION Spec
CONSTANTS
  Rows = 2
  Cols = 2
  TS = 2
  Ress = {1, 2}
  MinX <- MinusThree
  MinY = 5
  MaxCells = 1
  BUG = ""
INVARIANTS PointQueries Rasters Tight
CHECK_DEADLOCK FALSE
