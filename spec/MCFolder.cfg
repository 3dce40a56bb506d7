SPECIFICATION Spec
CONSTANTS
  Names = {"f", "g"}
  Types = {"a", "b"}
  Handles = {1, 2}
  Place <- TwoPlaces
  MaxOps = 6
  MaxNew = 1
  BUG = ""
VIEW View
INVARIANT Outcomes SameFolders SameContent SameGrids NoLeftovers
CHECK_DEADLOCK FALSE
