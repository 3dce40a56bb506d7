SPECIFICATION Spec
CONSTANTS
  Slots = 4
  Cores = {2, 3}
  BUG = ""
INVARIANTS LikeSerial Home
PROPERTY Ends
CHECK_DEADLOCK FALSE
