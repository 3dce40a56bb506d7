SPECIFICATION Spec
CONSTANTS
  Rows = 2
  Cols = 1
  TS = 2
  Ress = {1, 2}
  MinX <- MinusThree
  MinY = 5
  MaxCells = 4
  BUG = ""
INVARIANTS PointQueries Rasters Tight
CHECK_DEADLOCK FALSE
