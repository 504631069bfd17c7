SPECIFICATION MSpec
CONSTANTS
  Sizes <- Sizes3
  Hints = {0, 1, 3}
  Broken = "none"
  MaxGroups = 2
VIEW State
INVARIANTS Fits Intact Blocks OneBlock
PROPERTIES Delivered Destroyed
ACTION_CONSTRAINT Emit
CONSTRAINT Few
CHECK_DEADLOCK FALSE
