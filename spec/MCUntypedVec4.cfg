SPECIFICATION MSpec
CONSTANT M = 4
VIEW View
INVARIANT Distinct
PROPERTY Conserved
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
