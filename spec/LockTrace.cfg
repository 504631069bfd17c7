SPECIFICATION TSpec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
    Actors <- ActorSet
    None = None
