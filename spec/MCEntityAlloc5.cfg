SPECIFICATION MSpec
CONSTANTS Gens = 100
 MaxIds = 5
VIEW View
INVARIANTS FreeExact Unique ContractInv
PROPERTY Refines Unbounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
