import json, os
W="arche_tape/src/world.rs"; B="arche_tape/src/entity_builder.rs"; S="arche_tape/src/static_query.rs"; D="arche_tape/src/dyn_query.rs"; EN="arche_tape/src/entities.rs"; BI="arche_tape/src/bitset_iterator.rs"; U="untyped_vec/src/lib.rs"; AV="arche_tape/src/array_vec.rs"
P=[]
def p(id,title,st,over,text,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
     anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p("C01","Entity ids are unique for ever and liveness is exact",
 "Every entity a world creates (including the entities that stand for component types) gets an id that world has never handed out before, even when the slot of a despawned entity is reused (up to 2^32 reuses of one slot). An id reports alive from the moment its entity is built until it is despawned, and dead ever after. Despawn returns true exactly when the id was alive, and false, changing nothing, otherwise.",
 ["histories"],"every history of spawns, builds, abandoned builders, type registrations and despawns",
 "Tests use at most three entities and one reuse of one slot; uniqueness and staleness quantify over all interleavings of reuse across many slots and generations.",
 [EN,W,B],[("generation bump on slot reuse",EN+": Entities::spawn"),("generation comparison",EN+": Entities::is_alive"),("free list push on despawn",EN+": Entities::despawn")],
 [("generations","alive flag and current generation per slot",EN),("despawned","stack of free slots",EN)],["World::is_alive","World::despawn","EcsId::as_u64"])
p("C02","Ids of despawned entities are inert",
 "Once an entity is despawned, no operation given its id reads, changes or despawns whatever entity later occupies the same slot: lookups report absence, has-component reports false, despawn returns false, and adding or removing components through it is refused or has no effect. The same holds for a dead id used as a component id.",
 ["histories","inputs"],"every operation of the API, applied to every dead id, after every history that reuses its slot",
 "No test performs a component operation or query lookup through a stale id whose slot has been reused.",
 [W,EN,S,D],[("liveness guard at each entry point",W+": despawn/add_component*/remove_component*/get_entity_meta/get_component_mut_dynamic"),("liveness guard in point lookup",S+": StaticQuery::get")],
 [("ecs_id_meta","location and component metadata per slot; cleared on despawn",W)],["World::has_component","StaticQuery::get","World::get_component_mut_dynamic","World::get_entity_meta"])
p("C03","An entity has exactly the components its history gave it",
 "At every moment an alive entity has exactly the components it was built with, plus those added to it, minus those removed from it; has-component, point lookups and queries all report that same set. Operations on one entity never change which components another entity has.",
 ["histories"],"every sequence of spawn, add, remove and despawn over any number of entities and component kinds (typed and dynamic), so every path through the archetype graph",
 "Tests walk a handful of fixed paths with two or three components; the target archetype is found through caches and bit intersections whose content depends on the whole history.",
 [W,B,BI,AV],[("target archetype search and per-archetype add/remove cache",W+": find_archetype_dynamic*, AddRemoveCache"),("location bookkeeping after swap-remove",W+": add_component_dynamic_with_data, remove_component_dynamic, Archetype::despawn")],
 [("archetypes","component set, rows and columns per archetype",W),("add_remove_cache","component id -> neighbouring archetype",W)],["World::has_component","StaticQuery::get","DynQuery::iter"])
p("C04","Component values survive every structural change",
 "The value of a component of an alive entity is always the last value given to it, for every component type (any size, alignment or zero-sized) and typed or dynamic component alike. Adding, removing, spawning or despawning anything else, on this entity or on others, leaves that value unchanged and attached to the same entity.",
 ["histories","inputs"],"every history of structural changes over all entities and components, and every component layout",
 "Tests check values after at most one move with Copy types of a few sizes; swap-removal correctness depends on row position, column order and layout.",
 [W,B,U],[("row move between archetypes",W+": add_component_dynamic_with_data / remove_component_dynamic; "+U+": swap_move_element_to_other_vec"),("row removal",W+": Archetype::despawn; "+U+": swap_remove")],
 [("component_storages","one column per component id, rows parallel to entities",W)],["StaticQuery::get","StaticQuery::iter","World::get_component_mut_dynamic"])
p("C05","Typed query iteration is exact",
 "Iterating a typed query yields every alive entity that has all the requested components exactly once, and nothing else, with that entity's own id and component values in the requested positions. This holds for every number and order of query parameters, however many archetypes exist and in whatever order they were created, and for component types never used in this world the query yields nothing.",
 ["histories","inputs"],"every reachable world and every query tuple of one to ten parameters, including worlds with more archetypes than one machine word has bits",
 "Tests iterate worlds with two or three archetypes and one or two parameters; word boundaries, empty archetypes, registered-but-unused types and high arities are never reached.",
 [S,BI,W],[("bitset intersection over archetypes",BI+": BitsetIterator::next"),("per-archetype row iteration",S+": StaticQueryIter::next, IntraArchetypeIter::next"),("archetype bits set on creation",W+" and "+B+": archetype_bitset.set_bit")],
 [("archetype_bitset","per component slot, the archetypes that contain it",BI),("entities_bitvec","all archetypes",W)],["StaticQuery::iter"])
p("C06","Point lookups agree with iteration",
 "Looking up one entity through a query returns its row exactly when iterating the same query would yield that entity, and returns the same values. It returns nothing for dead entities and for entities lacking a requested component.",
 ["histories","inputs"],"every reachable world, every query tuple and every id ever issued",
 "One test looks up four entities in a static world; agreement after moves, swaps and slot reuse is never examined.",
 [S,W],[("row pointer computed from the entity's recorded location",S+": StaticQuery::get"),("location bookkeeping",W+": instance_meta updates")],
 [("instance_meta","archetype and row of each entity",W)],["StaticQuery::get"])
p("C07","Dynamic queries agree with typed queries",
 "A dynamic query over component ids yields exactly the entities having all of those components, each once, with pointers to that entity's own data; for ids that belong to types it yields the same rows as the typed query. Column iteration yields the same rows grouped into equally long parallel columns, and a query that names an id that is dead or is not a component of anything yields nothing.",
 ["histories","inputs"],"every reachable world and every array of fetches, including typed components addressed by id and dead or never-used ids",
 "Tests use fixed worlds of one or two archetypes and never compare the two query front ends or use column iteration.",
 [D,BI,W],[("dynamic fetch resolution and archetype iteration",D+": DynQuery::new/iter/column_iter"),("stride iteration",D+": IntraArchetypeIter::next")],[],["DynQuery::iter","DynQuery::column_iter"])
p("C08","Writes through mutable access are durable and isolated",
 "A write through a mutable query row, a mutable point lookup or a dynamic component pointer changes exactly that component of that entity. Every later read through any access path sees it, across any structural changes, until it is overwritten, removed or its entity despawned.",
 ["histories"],"every interleaving of writes through each access path with structural changes and reads through each access path",
 "The tests named for_each_mut never write through the mutable reference.",
 [S,D,W],[("pointer arithmetic in iterators",S+": offset_ptr; "+D+": IntraArchetypeIter"),("raw component pointer",W+": get_component_mut_dynamic")],[],["StaticQuery::iter","StaticQuery::get","World::get_component_mut_dynamic"])
p("C09","Every component value is dropped exactly once",
 "Every component value a world or builder accepts is dropped exactly once: when its component is removed, when its entity is despawned, when the builder holding it is abandoned, or at the latest when the world is dropped. It is never dropped earlier, never twice and never forgotten, for zero-sized and sized types alike.",
 ["histories","inputs"],"every history ending in dropping the world, every component layout with a destructor",
 "No world-level test observes destructors at all; the vector tests drop single elements of one sized type.",
 [W,B,U],[("drop on pop/swap_remove/Drop",U+": pop, swap_remove, Drop for UntypedVec"),("moves without drop",U+": swap_move_element_to_other_vec"),("builder hand-over by bytes",B+": with, build, Drop")],
 [("drop_fn","destructor of the column's element type",U)],["destructors of user components"])
p("C10","Conflicting queries never coexist; compatible ones always do",
 "While a query that can write a component exists, no other query that reads or writes that component can be obtained; any number of queries that only read it can exist together, and queries over disjoint components never hinder each other. Dropping a query ends its hold, so a query that waited for it is then granted, also when it is dropped because the code using it panicked.",
 ["schedules","inputs"],"every pair and group of typed and dynamic queries and every order of acquiring and dropping them",
 "No test holds two queries at once.",
 [S,D,W],[("one reader-writer lock per component, held by guards inside the query",S+": impl_query_tuple new; "+D+": DynQuery::new"),("lock registration when an archetype is created",W+": add_component_dynamic_with_data; "+B+": build")],
 [("locks/lock_lookup","reader-writer lock per component id",W)],["World::query","World::query_dynamic"])
p("C11","A refused operation leaves the world as it was",
 "An operation that is refused (panics or reports failure) because of a dead id, a component the entity already has or lacks, a component given twice to a builder, or data missing for a dynamic component, leaves every entity, component and value as before. The world keeps working correctly afterwards.",
 ["histories","inputs","fault_sequences"],"every kind of refused call in every reachable world, followed by every continuation",
 "Tests contain one should_panic test, on the id allocator, which ends there; nothing is examined after a refusal.",
 [W,B],[("assertions before mutation",W+": add_component, add_component_dynamic*, remove_component*"),("duplicate detection in the builder",B)],[],["every query after a caught refusal"])
p("C12","Component types have one stable identity",
 "A component type is represented by one component id per world: asking for it again returns the same id as long as that id is alive, distinct types get distinct ids, and typed and id-based operations on it are interchangeable. Registering a type, whether explicitly or by mentioning it in any call, never disturbs existing entities nor makes any later query fail.",
 ["histories"],"every order in which types are first mentioned (registration, builders, adds, removes, abandoned or refused calls) and every mix of typed and id-based operations",
 "Tests never mix typed and id-based access to one component, nor register a type without using it.",
 [W,S,B],[("type to id map",W+": get_or_create_type_id_ecsid"),("fetch resolution",S+": QueryParam::fetch_type")],
 [("type_id_to_ecs_id","type -> component id",W)],["World::get_or_create_type_id_ecsid","World::query"])
p("C13","Despawning a component's entity removes it from all entities",
 "When the entity that represents a component is despawned, that component (and its data) is removed from every entity that has it, and those entities keep all their other components. Afterwards the dead component id is unusable, entities reusing its slot are unrelated to it when used as components, and if it represented a type, using the type again creates a new identity.",
 ["histories"],"every world in which a component in use, unused, or used by itself is despawned, and every continuation, including reuse of its slot as a new component",
 "The only test for it returns before its first statement (feature was unimplemented).",
 [W,D],[("removal on despawn",W+": World::despawn"),("archetype bits keyed by slot index",BI+": Bitsetsss")],[],["World::despawn","DynQuery::iter","World::has_component"])
p("C14","A builder creates exactly the entity it was asked for",
 "Building yields an entity with exactly the components and values given to that builder, whatever their number, order, size and alignment, whatever capacity hint was given, and whatever was built or abandoned before with recycled buffers. A builder that is abandoned leaves no entity behind and has no effect on existing entities or later builders.",
 ["histories","inputs"],"every list of typed and dynamic components, every capacity hint, and every history of earlier builders",
 "Tests build with at most three small components and never abandon a builder or observe buffer reuse.",
 [B,W],[("byte buffer growth and packing",B+": realloc, with_dynamic_with_data"),("buffer recycling",B+": Drop, new_from_world_cache"),("exact archetype match",W+": find_archetype_dynamic")],
 [("entity_builder_reuse","recycled buffer and id list",W)],["EntityBuilder::build"])
p("C15","Entities are grouped by component set, independent of history",
 "Two alive entities are stored in the same group exactly when they have the same component set, however each came to have it, and no two alive entities share a storage position. The group and position reported for an entity are where column iteration finds its data.",
 ["histories"],"every path (build orders, add and remove orders) to a component set",
 "Tests check archetype indices for two fixed paths only.",
 [W,B],[("archetype lookup before creation",W+": find_archetype_dynamic*"),("row bookkeeping",W+": instance_meta")],[],["World::get_entity_meta","DynQuery::column_iter"])
p("C16","Slots and memory are recycled under churn",
 "A new entity takes a fresh slot only when no slot of a despawned or abandoned entity is free, so the number of slots never exceeds the peak number of simultaneously existing entities. Repeating a workload that returns to the same population over a fixed set of components does not increase the memory held without bound.",
 ["histories"],"every history of creations and removals, and every number of repetitions of a cyclic workload",
 "Tests reuse one or two slots once; growth over time is invisible to them.",
 [EN,W,B,U],[("free list",EN+": Entities::spawn/despawn"),("capacity reuse in columns",U+": push_raw"),("builder buffer reuse",B+": Drop")],[],["EcsId::uindex","global allocator"])
p("C17","All memory is returned exactly once with its own layout",
 "Every block of memory obtained by a world, a builder or an untyped vector is released exactly once, with the size and alignment it was obtained with, and nothing is left when they are dropped. Reallocation likewise names the block's true layout.",
 ["histories","inputs"],"every history ending in dropping everything, every component layout",
 "Tests never observe the allocator; a wrong layout or a leak passes silently.",
 [U,B,W],[("alloc/realloc/dealloc layouts",U+": realloc, Drop; "+B+": with_capacity, realloc, Drop; "+W+": Drop for World")],
 [("cap","bytes held, in step with the allocation",U)],["global allocator"])
p("C18","Handed-out component addresses are aligned and never overlap",
 "Every reference or pointer to component data that a query, lookup or vector hands out is aligned for its component type, and the storage of distinct live components of non-zero size never overlaps. This holds for every size and alignment, including zero-sized and over-aligned types, after any growth or move.",
 ["histories","inputs"],"every component layout and every history of growth, moves and removals",
 "Tests use naturally aligned primitive types and never look at addresses.",
 [U,S,D,W],[("allocation with the element's alignment and stride",U+": realloc, push_raw, get_raw"),("pointer creation",S+": create_ptr; "+D+": make_create_ptr_fn")],[],["StaticQuery::iter","StaticQuery::get","DynQuery::iter","DynQuery::column_iter","World::get_component_mut_dynamic","UntypedVec::get_raw/as_slice"])
p("C19","The untyped vector behaves as a sequence",
 "For every element layout, including zero-sized, the untyped vector behaves as a plain sequence under push, pop, indexed access, slice views, swap-removal and moving an element to another vector, with length and emptiness reported accordingly. Operations on an empty vector, on an out-of-range index, or with a slice view or another vector of a different element layout report absence or are refused and change nothing.",
 ["histories","inputs"],"every sequence of operations on one or two vectors and every element layout",
 "Tests cover single calls on vectors of at most five u32 elements; zero-sized elements, middle removals and repeated growth are not covered.",
 [U],[("byte length bookkeeping",U+": push_raw, pop, swap_remove, swap_move_element_to_other_vec"),("growth",U+": realloc")],
 [("len/cap","bytes used and held",U)],["UntypedVec::len/get_raw/as_slice/pop"])
p("C20","The untyped vector owns its elements exactly once",
 "An element pushed into an untyped vector is dropped exactly once: when popped, when swap-removed, or when the vector holding it is dropped. Moving it to another vector or growing either vector neither drops nor duplicates it, for sized and zero-sized elements alike.",
 ["histories","inputs"],"every sequence of operations on one or two vectors and every element layout with a destructor",
 "Tests observe the destructor of single elements of one sized type.",
 [U],[("drop on pop and Drop",U+": pop, Drop for UntypedVec"),("move without drop",U+": swap_move_element_to_other_vec")],[],["destructors of elements"])
p("C21","A destructor that panics leaves everything as if it had not",
 "When the destructor of a component panics while its entity (one that no entity has as a component) is despawned, while it is removed, or while an unbuilt entity builder or the world is dropped, the panic reaches the caller and the operation has been carried out all the same: exactly what it does otherwise, with every value it gives up, also the others, destroyed exactly once. The world can be used as before. The same holds for pop, swap-removal and drop of an untyped vector.",
 ["histories","fault_sequences"],"every history of operations in which destructors panic, and every later use of what is left",
 "No test lets a destructor panic.",
 [W,U,B],[("a row's values go last, all of them",W+": Archetype::despawn, World::despawn, World::remove_component_dynamic"),("an abandoned builder's values go last",B+": Drop"),("an element is no longer counted when it is destroyed",U+": pop, Drop for UntypedVec")],[("entities, component_storages, entity metadata","agree whenever no operation is under way",W)],["World::despawn","World::remove_component","EntityBuilder drop","UntypedVec::pop/swap_remove/drop"])
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,x["id"]
print(len(P))
