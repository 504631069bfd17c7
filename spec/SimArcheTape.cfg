SPECIFICATION SSpec
CONSTANTS Kinds = {1, 2}
 CacheSize = 4
 Base = 1000
 MaxSlots = 8
 MaxGen = 900
 MaxArchs = 900
 MaxComps = 4
 MaxLevel = 0
 Walks = 8
 Depth = 60
 Alphabet = 6
CHECK_DEADLOCK FALSE
VIEW SView
ACTION_CONSTRAINT SEmit
INVARIANTS GuardsAgree QueriesExact StructuresSound EcsInv SlotsFit Grouped
PROPERTY Refines
