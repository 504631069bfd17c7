SPECIFICATION MSpec
CONSTANT M = 6
VIEW View
INVARIANT Distinct
PROPERTY Conserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
