SPECIFICATION TSpec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
