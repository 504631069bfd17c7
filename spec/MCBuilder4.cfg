SPECIFICATION MSpec
CONSTANTS
  Sizes <- Sizes4
  Hints = {0, 1, 4}
  Broken = "none"
  MaxGroups = 1
VIEW State
INVARIANTS Fits Intact Blocks OneBlock
PROPERTIES Delivered Destroyed
ACTION_CONSTRAINT Emit
CONSTRAINT Few
CHECK_DEADLOCK FALSE
