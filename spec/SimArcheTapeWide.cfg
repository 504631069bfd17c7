SPECIFICATION SSpec
CONSTANTS Kinds = {1, 2}
 CacheSize = 4
 Base = 1000
 MaxSlots = 14
 MaxGen = 900
 MaxArchs = 900
 MaxComps = 7
 MaxLevel = 0
 Walks = 6
 Depth = 150
 Alphabet = 9
CHECK_DEADLOCK FALSE
VIEW SView
ACTION_CONSTRAINT SEmit
INVARIANTS GuardsAgree QueriesExact StructuresSound EcsInv SlotsFit Grouped
PROPERTY Refines
