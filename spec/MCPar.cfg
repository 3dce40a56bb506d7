SPECIFICATION Spec
CONSTANTS
  Slots = 3
  Cores = {1, 2, 3}
  BUG = ""
INVARIANTS LikeSerial Home
PROPERTY Ends
CHECK_DEADLOCK FALSE
