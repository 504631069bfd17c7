SPECIFICATION MSpec
CONSTANTS Kinds = {1}
 DropKinds = {1}
 ZeroKinds = {}
 MaxIds = 4
 Vals = {7}
 Plain = FALSE
VIEW View
INVARIANTS Sound Conserved Inert Matches
PROPERTIES Permanent Isolated OnlyOne
CHECK_DEADLOCK FALSE
