SPECIFICATION Spec
CONSTANTS
  Grids = {"a", "b"}
  Vals = {0, 1}
  MaxLoc = 7
  MaxSlots = 2
  MaxHeld = 2
  MaxOps = 6
  BUG = ""
VIEW View
INVARIANTS TypeOK OwnHistory CallersOwn Separate
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
