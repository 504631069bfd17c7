SPECIFICATION MSpec
CONSTANTS Gens = 3
 MaxIds = 8
VIEW View
INVARIANTS FreeExact Unique
CHECK_DEADLOCK FALSE
