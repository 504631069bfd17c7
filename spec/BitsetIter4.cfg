SPECIFICATION Spec
CONSTANTS
    W = 2
    MaxGroups = 4
INVARIANTS Exact Complete SetsRight
PROPERTY Fused
CHECK_DEADLOCK FALSE
