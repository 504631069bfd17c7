SPECIFICATION Spec
CONSTANTS
    W = 2
    MaxGroups = 6
INVARIANTS Exact Complete SetsRight
PROPERTY Fused
CHECK_DEADLOCK FALSE
