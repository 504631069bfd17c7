SPECIFICATION Spec
CONSTANTS
 E = {1, 2, 3}
 C = {10, 20}
 Guarded = TRUE
 Last = TRUE
INVARIANTS Columns Located Owned Once Bounds
CHECK_DEADLOCK FALSE
