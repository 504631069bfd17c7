SPECIFICATION MSpec
CONSTANTS Kinds = {1, 2}
 DropKinds = {1}
 ZeroKinds = {2}
 MaxIds = 4
 Vals = {7}
 Plain = TRUE
VIEW View
INVARIANTS Sound Conserved Inert Matches CountedQueries
PROPERTIES Permanent Isolated OnlyOne Counted
CHECK_DEADLOCK FALSE
