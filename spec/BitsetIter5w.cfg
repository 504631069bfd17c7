SPECIFICATION Spec
CONSTANTS
    W = 3
    MaxGroups = 5
INVARIANTS Exact Complete SetsRight
PROPERTY Fused
CHECK_DEADLOCK FALSE
