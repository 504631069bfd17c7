------------------------------ MODULE ArcheTape -----------------------------
(***************************************************************************)
(* How the world is built, at the level of its data structures: slots with *)
(* generations and a stack of free ones, entities grouped into archetypes  *)
(* with one column for each component, bit sets from component slot to     *)
(* archetypes, and in each archetype a cache of where adding or removing a *)
(* component leads. Every operation is a function from world to world, as  *)
(* in the code; MCArcheTape checks that each is a step of Ecs and that     *)
(* queries over these structures answer what Ecs says.                     *)
(*                                                                         *)
(* An id is generation * Base + slot. A column holds the values of its     *)
(* component row by row.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds, CacheSize, Base

Id(s, g) == g * Base + s
SlotOf(id) == id % Base
GenOf(id) == id \div Base
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Nowhere == [arch |-> 0, row |-> 0, k |-> 0 - 2]
Empty == [gens |-> <<>>, free |-> <<>>, metas |-> <<>>, archs |-> <<>>, bits |-> <<>>, types |-> [k \in {} |-> 0]]
Cut(s) == SubSeq(s, 1, Len(s) - 1)
SwapOut(s, i) == IF i = Len(s) THEN Cut(s) ELSE Cut([s EXCEPT ![i] = s[Len(s)]])

(* -------------------- slots and generations (Entities) ------------------ *)
IsAlive(w, id) == SlotOf(id) < Len(w.gens) /\ LET g == w.gens[SlotOf(id) + 1] IN g.alive /\ g.gen = GenOf(id)
NextId(w) == IF w.free = <<>> THEN Id(Len(w.gens), 0) ELSE LET s == w.free[Len(w.free)] IN Id(s, w.gens[s + 1].gen + 1)
Take(w) == IF w.free = <<>> THEN [w EXCEPT !.gens = Append(@, [alive |-> TRUE, gen |-> 0]), !.metas = Append(@, Nowhere), !.bits = Append(@, {})]
           ELSE LET s == w.free[Len(w.free)] IN [w EXCEPT !.free = Cut(@), !.gens[s + 1] = [alive |-> TRUE, gen |-> @.gen + 1]]
Release(w, id) == [w EXCEPT !.gens[SlotOf(id) + 1].alive = FALSE, !.free = Append(@, SlotOf(id))]
Meta(w, id) == w.metas[SlotOf(id) + 1]
SetMeta(w, id, m) == [w EXCEPT !.metas[SlotOf(id) + 1] = m]

(* ------------------------- finding an archetype ------------------------- *)
Arch(C) == [comps |-> C, ents |-> <<>>, cols |-> [c \in C |-> <<>>], cache |-> <<>>, look |-> [c \in {} |-> 0]]
\* archetypes whose bit is set for every one of these components
WithBits(w, C) == {i \in 1..Len(w.archs) : \A c \in C : i \in w.bits[SlotOf(c) + 1]}
Sized(w, C, n) == LET F == {i \in WithBits(w, C) : Cardinality(w.archs[i].comps) = n} IN IF F = {} THEN 0 ELSE Least(F)
Find(w, C) == IF C = {} THEN (IF w.archs = <<>> THEN 0 ELSE 1) ELSE Sized(w, C, Cardinality(C))
FindPlus(w, i, c) == LET C == w.archs[i].comps IN Sized(w, C \cup {c}, Cardinality(C) + 1)
FindMinus(w, i, c) == LET C == w.archs[i].comps IN IF Cardinality(C) = 1 THEN 1 ELSE Sized(w, C \ {c}, Cardinality(C) - 1)
MakeArch(w, C) == LET n == Len(w.archs) + 1
                      S == {SlotOf(c) + 1 : c \in C}
                  IN [w EXCEPT !.archs = Append(@, Arch(C)), !.bits = [s \in 1..Len(@) |-> IF s \in S THEN @[s] \cup {n} ELSE @[s]]]

\* the cache in front of the lookup table: the few edges put there last
Newest(s) == SubSeq(s, 1, IF Len(s) < CacheSize THEN Len(s) ELSE CacheSize)
Remember(w, i, c, j) == [w EXCEPT !.archs[i].cache = Newest(<<<<c, j>>>> \o @), !.archs[i].look = (c :> j) @@ @]
Cached(w, i, c) == LET H == {n \in 1..Len(w.archs[i].cache) : w.archs[i].cache[n][1] = c}
                   IN IF H # {} THEN w.archs[i].cache[Least(H)][2]
                      ELSE IF c \in DOMAIN w.archs[i].look THEN w.archs[i].look[c] ELSE 0
Noted(w, i, c) == \E n \in 1..Len(w.archs[i].cache) : w.archs[i].cache[n][1] = c
\* <<world with caches brought up to date, and the archetype made if there was none; its index>>
Target(w, i, c, found, C) ==
    LET j == Cached(w, i, c) IN
    IF j # 0 THEN <<IF Noted(w, i, c) THEN w ELSE [w EXCEPT !.archs[i].cache = Newest(<<<<c, j>>>> \o @)], j>>
    ELSE IF found # 0 THEN <<Remember(w, i, c, found), found>>
    ELSE LET v == MakeArch(w, C) IN <<Remember(v, i, c, Len(v.archs)), Len(v.archs)>>

(* ------------------------- moving between them -------------------------- *)
\* takes row r out of archetype i; the last row comes in its place
DropRow(w, i, r) ==
    LET a == w.archs[i]
        n == Len(a.ents)
        v == [w EXCEPT !.archs[i].ents = SwapOut(@, r), !.archs[i].cols = [c \in a.comps |-> SwapOut(a.cols[c], r)]]
    IN IF r = n THEN v ELSE [v EXCEPT !.metas[SlotOf(a.ents[n]) + 1].row = r]
AddRow(w, j, e, vals) ==
    LET v == [w EXCEPT !.archs[j].ents = Append(@, e), !.archs[j].cols = [c \in w.archs[j].comps |-> Append(@[c], vals[c])]]
    IN SetMeta(v, e, [Meta(v, e) EXCEPT !.arch = j, !.row = Len(v.archs[j].ents)])
RowVals(w, e) == LET m == Meta(w, e) IN [c \in w.archs[m.arch].comps |-> w.archs[m.arch].cols[c][m.row]]
MoveTo(w, j, e, vals) == LET m == Meta(w, e) IN AddRow(DropRow(w, m.arch, m.row), j, e, vals)

CompsOf(w, e) == w.archs[Meta(w, e).arch].comps
AddOk(w, e, c) == IsAlive(w, e) /\ IsAlive(w, c) /\ c \notin CompsOf(w, e)
AddComp(w, e, c, val) ==
    LET i == Meta(w, e).arch
        t == Target(w, i, c, FindPlus(w, i, c), w.archs[i].comps \cup {c})
    IN MoveTo(t[1], t[2], e, (c :> val) @@ RowVals(w, e))
RemoveOk(w, e, c) == IsAlive(w, e) /\ IsAlive(w, c) /\ c \in CompsOf(w, e)
RemoveComp(w, e, c) ==
    LET i == Meta(w, e).arch
        t == Target(w, i, c, FindMinus(w, i, c), w.archs[i].comps \ {c})
        vals == RowVals(w, e)
    IN MoveTo(t[1], t[2], e, [x \in DOMAIN vals \ {c} |-> vals[x]])

(* ---------------------- building, types, despawning --------------------- *)
\* vals: component -> value, for an id already taken
Place(w, e, k, vals) ==
    LET f == Find(w, DOMAIN vals)
        v == IF f = 0 THEN MakeArch(w, DOMAIN vals) ELSE w
        j == IF f = 0 THEN Len(v.archs) ELSE f
    IN AddRow(SetMeta(v, e, [arch |-> 0, row |-> 0, k |-> k]), j, e, vals)
Plain == 0 - 1
Known(w, k) == k \in DOMAIN w.types
\* the world after asking for a type, and its id
TypeOf(w, k) == IF Known(w, k) THEN <<w, w.types[k]>>
                ELSE LET e == NextId(w) IN <<[Place(Take(w), e, k, [c \in {} |-> 0]) EXCEPT !.types = (k :> e) @@ @], e>>
RECURSIVE TypesOf(_, _)
TypesOf(w, ks) == IF ks = <<>> THEN w ELSE TypesOf(TypeOf(w, ks[1])[1], Tail(ks))
Members(s) == {s[i] : i \in 1..Len(s)}
\* an entity with components of types ks and component ids cs, each with the value val
BuildOk(w, cs) == \A i \in 1..Len(cs) : IsAlive(w, cs[i])
BuildEnt(w, ks, cs, val) ==
    LET e == NextId(w)
        v == TypesOf(Take(w), ks)
        C == {v.types[k] : k \in Members(ks)} \cup Members(cs)
    IN Place(v, e, Plain, [c \in C |-> val])
AbandonEnt(w, ks) == Release(TypesOf(Take(w), ks), NextId(w))

RECURSIVE Strip(_, _, _)
Strip(w, i, c) == IF w.archs[i].ents = <<>> THEN w
                  ELSE Strip(RemoveComp(w, w.archs[i].ents[Len(w.archs[i].ents)], c), i, c)
RECURSIVE Purge(_, _, _, _)
\* archetypes up to n lose the component, and their bit for it
Purge(w, i, n, c) == IF i > n THEN w
                     ELSE IF c \notin w.archs[i].comps THEN Purge(w, i + 1, n, c)
                     ELSE LET v == Strip(w, i, c) IN Purge([v EXCEPT !.bits[SlotOf(c) + 1] = @ \ {i}], i + 1, n, c)
DespawnEnt(w, e) ==
    LET p == Purge(w, 1, Len(w.archs), e)
        v == [p EXCEPT !.types = [k \in {x \in DOMAIN @ : @[x] # e} |-> @[k]]]
        m == Meta(v, e)
    IN Release(SetMeta(DropRow(v, m.arch, m.row), e, Nowhere), e)

(* ------------------------------- queries -------------------------------- *)
\* cols as in Ecs: component ids, or 0 - 1 for the entity. Archetypes in order, rows in order
QueryArchs(w, cols) == LET C == Members(cols) \ {0 - 1} IN WithBits(w, C)
RowsIn(w, i, cols) == [r \in 1..Len(w.archs[i].ents) |->
                         [n \in 1..Len(cols) |-> IF cols[n] = 0 - 1 THEN w.archs[i].ents[r] ELSE w.archs[i].cols[cols[n]][r]]]
RECURSIVE RowsFrom(_, _, _)
RowsFrom(w, i, cols) == IF i > Len(w.archs) THEN <<>>
                        ELSE (IF i \in QueryArchs(w, cols) THEN RowsIn(w, i, cols) ELSE <<>>) \o RowsFrom(w, i + 1, cols)
QueryRows(w, cols) == RowsFrom(w, 1, cols)
\* a bit may only lead to an archetype that has the column
QuerySafe(w, cols) == \A i \in QueryArchs(w, cols) : Members(cols) \ {0 - 1} \subseteq w.archs[i].comps

(* ----------------------- what the structures obey ----------------------- *)
Entities(w) == {Id(s, w.gens[s + 1].gen) : s \in {x \in 0..(Len(w.gens) - 1) : w.gens[x + 1].alive}}
SlotsSound(w) == /\ \A i, j \in 1..Len(w.free) : w.free[i] = w.free[j] => i = j
                 /\ Members(w.free) = {s \in 0..(Len(w.gens) - 1) : ~w.gens[s + 1].alive}
RowsSound(w) == /\ \A e \in Entities(w) : LET m == Meta(w, e) IN m.arch \in 1..Len(w.archs) /\ m.row \in 1..Len(w.archs[m.arch].ents) /\ w.archs[m.arch].ents[m.row] = e
                /\ \A i \in 1..Len(w.archs) : LET a == w.archs[i] IN
                      /\ \A r \in 1..Len(a.ents) : IsAlive(w, a.ents[r]) /\ Meta(w, a.ents[r]).arch = i /\ Meta(w, a.ents[r]).row = r
                      /\ DOMAIN a.cols = a.comps /\ \A c \in a.comps : Len(a.cols[c]) = Len(a.ents)
Usable(w, i) == \A c \in w.archs[i].comps : IsAlive(w, c)
ArchsSound(w) == /\ w.archs # <<>> => w.archs[1].comps = {}
                 /\ \A i, j \in {x \in 1..Len(w.archs) : Usable(w, x)} : w.archs[i].comps = w.archs[j].comps => i = j
                 /\ \A i \in 1..Len(w.archs) : ~Usable(w, i) => w.archs[i].ents = <<>>
BitsSound(w) == \A s \in 1..Len(w.bits) : w.bits[s] = {i \in 1..Len(w.archs) : \E c \in w.archs[i].comps : SlotOf(c) = s - 1 /\ IsAlive(w, c)}
CachesSound(w) == \A i \in 1..Len(w.archs) : LET a == w.archs[i] IN
                     /\ \A c \in DOMAIN a.look : w.archs[a.look[c]].comps = IF c \in a.comps THEN a.comps \ {c} ELSE a.comps \cup {c}
                     /\ \A n \in 1..Len(a.cache) : a.cache[n][1] \in DOMAIN a.look /\ a.look[a.cache[n][1]] = a.cache[n][2]
Sound(w) == SlotsSound(w) /\ RowsSound(w) /\ ArchsSound(w) /\ BitsSound(w) /\ CachesSound(w)
=============================================================================
