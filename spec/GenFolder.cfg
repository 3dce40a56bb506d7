INIT GInit
NEXT GNext
CONSTANTS
  Names = {"f", "g"}
  Types = {"a", "b"}
  Handles = {1, 2}
  Place <- ThreePlaces
  MaxOps = 5
  MaxNew = 1
  BUG = ""

CHECK_DEADLOCK FALSE
VIEW View
