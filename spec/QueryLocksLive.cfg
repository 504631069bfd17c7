SPECIFICATION Fair
CONSTANTS
    Actors = {1, 2, 3}
    Comps = {1, 2}
    Ordered = TRUE
    None = None
INVARIANTS Exclusive
PROPERTY Granted
CHECK_DEADLOCK TRUE
