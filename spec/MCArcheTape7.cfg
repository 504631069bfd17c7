SPECIFICATION Spec
CONSTANTS Kinds = {1}
 CacheSize = 1
 Base = 10
 MaxSlots = 3
 MaxGen = 1
 MaxArchs = 4
 MaxComps = 2
 MaxLevel = 7
CHECK_DEADLOCK FALSE
VIEW View
CONSTRAINT Shallow
ACTION_CONSTRAINT Emit
INVARIANTS GuardsAgree QueriesExact StructuresSound EcsInv SlotsFit Grouped
PROPERTY Refines
