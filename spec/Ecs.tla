-------------------------------- MODULE Ecs --------------------------------
(***************************************************************************)
(* The contract of an ECS world, as a user of the public API sees it.      *)
(*                                                                         *)
(* Every id is an entity; any entity may also be used as a component of    *)
(* entities (including itself). A component type is represented by one     *)
(* entity. For each operation X there is a guard XOk (when it is carried   *)
(* out rather than refused), an update XNext (its whole effect) and the    *)
(* values it must destroy, XLost. EcsTrace checks recorded executions with *)
(* the same operators, MCEcs enumerates them, ArcheTape refines them.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kinds,      \* component types
          DropKinds,  \* those whose values have a destructor
          ZeroKinds   \* those without data

VARIABLES issued,  \* every id ever handed out
          slot,    \* id -> slot, for issued ids
          ent,     \* alive id -> (component id -> value)
          desc,    \* alive id -> what it holds when used as a component
          types,   \* component type -> the id that represents it
          peak     \* most entities that ever existed together

vars == <<issued, slot, ent, desc, types, peak>>

Alive == DOMAIN ent
None == [c \in {} |-> 0]
NoKind == 0 - 1
Unit == [k |-> NoKind, dr |-> FALSE]
Slots == {slot[i] : i \in issued}
Comps(e) == DOMAIN ent[e]
Has(e, c) == e \in Alive /\ c \in Comps(e)
Holders(c) == {e \in Alive : c \in Comps(e)}
\* A component that carries no data can be added by id alone
Dataless(c) == desc[c].k = NoKind \/ desc[c].k \in ZeroKinds
TypeDesc(k) == [k |-> k, dr |-> k \in DropKinds]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Max(a, b) == IF a >= b THEN a ELSE b

(* ----------------------------- destruction ----------------------------- *)
\* A multiset of <<kind, value>>, as a set of <<kind, value, count>>; items is any function to pairs
BagOf(items) == {<<items[x][1], items[x][2], Cardinality({y \in DOMAIN items : items[y] = items[x]})>> : x \in DOMAIN items}
\* held is a set of <<entity, component>>: what is destroyed when all those values go
Destroyed(held) == BagOf([h \in {x \in held : desc[x[2]].dr} |-> <<desc[h[2]].k, ent[h[1]][h[2]]>>])

\* C21: an operation in which the destructor of a value it destroys panics returns by unwinding, carried out all the same
Returned(res, ok, lost) == res = ok \/ (res = "unwound" /\ lost # {})

(* ------------------------- component types (C12) ----------------------- *)
\* R is a set of <<kind, id, slot>>: the ids of all types an operation mentions, as observed afterwards
NewRegs(R) == {r \in R : r[1] \notin DOMAIN types}
NewIds(R) == {r[2] : r \in NewRegs(R)}
RegsStable(R) == \A r \in R : r[1] \in DOMAIN types => r[2] = types[r[1]]
RegsFresh(R) == /\ \A r \in NewRegs(R) : r[2] \notin issued
                /\ \A r, q \in NewRegs(R) : r[2] = q[2] => r[1] = q[1]
\* (a type that building never came to, because of an earlier refusal, has no id yet: some number that is no id)
IdOf(R, k) == IF k \in DOMAIN types THEN types[k]
              ELSE IF \E r \in R : r[1] = k THEN (CHOOSE r \in R : r[1] = k)[2] ELSE 0 - 10 - k

\* Effect of registering on each variable
RegTypes(R) == [k \in {r[1] : r \in NewRegs(R)} |-> IdOf(R, k)] @@ types
RegEnt(R) == [i \in NewIds(R) |-> None] @@ ent
RegDesc(R) == [i \in NewIds(R) |-> TypeDesc((CHOOSE r \in NewRegs(R) : r[2] = i)[1])] @@ desc
RegSlot(R) == [i \in NewIds(R) |-> (CHOOSE r \in NewRegs(R) : r[2] = i)[3]] @@ slot
RegIssued(R) == NewIds(R) \cup issued

\* extra: entities that existed during the operation besides the alive ones and the newly registered
PeakNext(R, extra) == peak' = Max(peak, Cardinality(Alive) + Cardinality(NewIds(R)) + extra)

RegisterNext(R) == /\ types' = RegTypes(R) /\ ent' = RegEnt(R) /\ desc' = RegDesc(R)
                   /\ slot' = RegSlot(R) /\ issued' = RegIssued(R)
                   /\ PeakNext(R, 0)

(* --------------------------- building (C14) ---------------------------- *)
\* parts: <<form, x, value>>. "T" gives a value of type x, "U" names the component id x alone, "V" gives a value for component id x
PartId(R, p) == IF p[1] = "T" THEN IdOf(R, p[2]) ELSE p[2]
PartBad(R, parts, i) ==
    \/ parts[i][1] \in {"U", "V"} /\ parts[i][2] \notin Alive
    \/ parts[i][1] = "U" /\ parts[i][2] \in Alive /\ ~Dataless(parts[i][2])
    \/ \E j \in 1..(i - 1) : /\ \/ parts[j][1] = "T" /\ parts[i][1] = "T" /\ parts[i][2] = parts[j][2]
                                \/ ~(parts[j][1] = "T" /\ parts[i][1] = "T") /\ PartId(R, parts[i]) = PartId(R, parts[j])
\* The first part that is refused, or 0
FirstBad(R, parts) == LET B == {i \in 1..Len(parts) : PartBad(R, parts, i)} IN IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : i <= j
BuildOk(R, parts) == FirstBad(R, parts) = 0
BuildFresh(R, id) == id \notin issued /\ id \notin NewIds(R)
PartComps(R, parts) == LET C == {PartId(R, parts[i]) : i \in 1..Len(parts)}
                       IN [c \in C |-> parts[CHOOSE i \in 1..Len(parts) : PartId(R, parts[i]) = c][3]]
BuildNext(R, id, sl, d, parts) ==
    /\ types' = RegTypes(R)
    /\ ent' = (id :> PartComps(R, parts)) @@ RegEnt(R)
    /\ desc' = (id :> d) @@ RegDesc(R)
    /\ slot' = (id :> sl) @@ RegSlot(R)
    /\ issued' = {id} \cup RegIssued(R)
    /\ PeakNext(R, 1)
\* Abandoned, or refused at part n + 1: the values of the first n parts are destroyed and nothing else happens
PartDesc(p) == IF p[1] = "T" THEN TypeDesc(p[2]) ELSE desc[p[2]]
AbandonLost(parts, n) == BagOf([i \in {j \in 1..n : PartDesc(parts[j]).dr} |-> <<PartDesc(parts[i]).k, parts[i][3]>>])
AbandonNext(R) == /\ types' = RegTypes(R) /\ ent' = RegEnt(R) /\ desc' = RegDesc(R)
                  /\ slot' = RegSlot(R) /\ issued' = RegIssued(R)
                  /\ PeakNext(R, 1)

(* ----------------------- despawning (C01, C13) ------------------------- *)
DespawnOk(id) == id \in Alive
DespawnLost(id) == Destroyed({<<e, id>> : e \in Holders(id)} \cup {<<id, c>> : c \in Comps(id)})
DespawnNext(id) ==
    /\ ent' = [e \in Alive \ {id} |-> IF id \in DOMAIN ent[e] THEN Without(ent[e], {id}) ELSE ent[e]]
    /\ desc' = Without(desc, {id})
    /\ types' = Without(types, {k \in DOMAIN types : types[k] = id})
    /\ UNCHANGED <<issued, slot, peak>>

(* --------------- adding and removing components (C03, C04) ------------- *)
AddOk(R, e, c) == e \in Alive /\ (c \in Alive \/ c \in NewIds(R)) /\ ~Has(e, c)
AddNext(R, e, c, v) ==
    /\ types' = RegTypes(R)
    /\ ent' = (e :> ((c :> v) @@ ent[e])) @@ RegEnt(R)
    /\ desc' = RegDesc(R) /\ slot' = RegSlot(R) /\ issued' = RegIssued(R)
    /\ PeakNext(R, 0)
RemoveOk(e, c) == Has(e, c)
RemoveLost(e, c) == Destroyed({<<e, c>>})
RemoveNext(e, c) == /\ ent' = [ent EXCEPT ![e] = Without(@, {c})]
                    /\ UNCHANGED <<issued, slot, desc, types, peak>>

(* ------------------------------ writing (C08) -------------------------- *)
\* W is a set of <<entity, component, value>>, one value per entity and component
WriteNext(W) ==
    /\ ent' = [e \in {w[1] : w \in W} |->
                 LET We == {w \in W : w[1] = e}
                 IN [c \in DOMAIN ent[e] |-> IF \E w \in We : w[2] = c THEN (CHOOSE w \in We : w[2] = c)[3] ELSE ent[e][c]]] @@ ent
    /\ UNCHANGED <<issued, slot, desc, types, peak>>

(* ------------------------ queries (C05, C06, C07) ---------------------- *)
\* cols: component ids, 0 - 1 for the entity itself, 0 - 2 for a type this world does not know
IsId(c) == c = 0 - 1
Match(cols) == {e \in Alive : \A i \in 1..Len(cols) : IsId(cols[i]) \/ cols[i] \in DOMAIN ent[e]}
Row(cols, e) == [i \in 1..Len(cols) |-> IF IsId(cols[i]) THEN e ELSE ent[e][cols[i]]]
TypedCols(cols) == [i \in 1..Len(cols) |-> IF cols[i][1] = "E" THEN 0 - 1
                                           ELSE IF cols[i][2] \in DOMAIN types THEN types[cols[i][2]] ELSE 0 - 2]
DynCols(cols) == [i \in 1..Len(cols) |-> IF cols[i][1] = "E" THEN 0 - 1 ELSE cols[i][2]]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
CountIn(rows, r) == Cardinality({i \in 1..Len(rows) : rows[i] = r})
\* rows is an enumeration, in any order, of the rows of all matching entities
RowsExact(cols, rows) ==
    LET M == Match(cols) IN
    /\ Len(rows) = Cardinality(M)
    /\ IF \E i \in 1..Len(cols) : IsId(cols[i])
       THEN RangeOf(rows) = {Row(cols, e) : e \in M}
       ELSE \A r \in RangeOf(rows) \cup {Row(cols, e) : e \in M} : CountIn(rows, r) = Cardinality({e \in M : Row(cols, e) = r})
\* rows is the beginning of such an enumeration
RowsPrefix(cols, rows, n) ==
    LET M == Match(cols) IN
    /\ Len(rows) = IF n < Cardinality(M) THEN n ELSE Cardinality(M)
    /\ \A r \in RangeOf(rows) : CountIn(rows, r) <= Cardinality({e \in M : Row(cols, e) = r})

(* ------------------------------- the world ----------------------------- *)
Init == /\ issued = {} /\ slot = [i \in {} |-> 0] /\ ent = [i \in {} |-> None] /\ desc = [i \in {} |-> Unit]
        /\ types = [k \in {} |-> 0] /\ peak = 0

Register(R) == RegsStable(R) /\ RegsFresh(R) /\ RegisterNext(R)
Build(R, id, sl, d, parts) == RegsStable(R) /\ RegsFresh(R) /\ BuildFresh(R, id) /\ BuildOk(R, parts) /\ BuildNext(R, id, sl, d, parts)
Abandon(R) == RegsStable(R) /\ RegsFresh(R) /\ AbandonNext(R)
Despawn(id) == DespawnOk(id) /\ DespawnNext(id)
Add(R, e, c, v) == RegsStable(R) /\ RegsFresh(R) /\ AddOk(R, e, c) /\ AddNext(R, e, c, v)
Remove(e, c) == RemoveOk(e, c) /\ RemoveNext(e, c)
Write(e, c, v) == Has(e, c) /\ WriteNext({<<e, c, v>>})

(* ------------------------- what must always hold ----------------------- *)
AliveIssued == Alive \subseteq issued /\ DOMAIN desc = Alive /\ DOMAIN slot = issued
\* C13: no entity has a dead component
ComponentsAlive == \A e \in Alive : Comps(e) \subseteq Alive
\* C12
TypesSound == /\ \A k \in DOMAIN types : types[k] \in Alive /\ desc[types[k]] = TypeDesc(k)
              /\ \A j, k \in DOMAIN types : types[j] = types[k] => j = k
\* C16
SlotsBounded == Cardinality(Slots) <= peak
\* C01: a slot has one alive owner
SlotsExclusive == \A a, b \in Alive : slot[a] = slot[b] => a = b
Inv == AliveIssued /\ ComponentsAlive /\ TypesSound

\* C01: ids are never issued again and the dead stay dead
Permanent == [][issued \subseteq issued' /\ (issued \ Alive) \cap DOMAIN ent' = {}]_vars
=============================================================================
