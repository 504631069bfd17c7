SPECIFICATION MSpec
CONSTANTS
    Actors = {1, 2, 3}
    None = None
VIEW View
INVARIANTS Exclusive NoneStuck
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
