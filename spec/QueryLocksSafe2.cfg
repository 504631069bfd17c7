SPECIFICATION Spec
CONSTANTS
    Actors = {1, 2}
    Comps = {1, 2}
    Ordered = FALSE
    None = None
INVARIANTS Exclusive NotHindered ReadersTogether
PROPERTY Implements ImplementsSteps
CHECK_DEADLOCK FALSE
