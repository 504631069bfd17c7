---------------------------- MODULE MCEntityAlloc ---------------------------
(* The graph of EntityAlloc with at most MaxIds ids, every edge printed for the replay, every step checked against Ids *)
EXTENDS EntityAlloc, TLC, Json
CONSTANT MaxIds
VARIABLES last, peak
mvars == <<tab, free, log, last, peak>>
View == <<tab, free, log>>
Alive == {i \in 1..Len(log) : IsAlive(log[i])}
\* (parts of the history that are state of the contract: what is alive is read off the table)
I == INSTANCE Ids WITH n <- Len(log), alive <- Alive, slotOf <- [i \in 1..Len(log) |-> log[i][1]]

\* and the same without bounds, for which uniqueness is proved in IdProof
U == INSTANCE IdSteps WITH n <- Len(tab), gen <- [s \in 1..Len(tab) |-> tab[s].gen], used <- {s \in 1..Len(tab) : tab[s].alive},
                           log <- {log[i] : i \in 1..Len(log)}

Rec(op, e, res, s) == last' = [op |-> op, e |-> e, res |-> res, slot |-> s]
Max(a, b) == IF a >= b THEN a ELSE b
DoSpawn == Len(log) < MaxIds /\ Spawn /\ Rec("spawn", Len(log) + 1, TRUE, NextSlot) /\ peak' = Max(peak, Cardinality(Alive) + 1)
DoDespawn(i) == UNCHANGED peak /\ IF IsAlive(log[i]) THEN Despawn(log[i]) /\ Rec("despawn", i, TRUE, 0)
                                                     ELSE UNCHANGED avars /\ Rec("despawn", i, FALSE, 0)
MInit == AInit /\ last = [op |-> "init", e |-> 0, res |-> TRUE, slot |-> 0] /\ peak = 0
MNext == DoSpawn \/ \E i \in 1..Len(log) : DoDespawn(i)
MSpec == MInit /\ [][MNext]_mvars

Refines == [][CASE last'.op = "spawn" -> I!SlotOk(last'.slot) /\ I!SpawnNext(last'.slot)
                [] last'.res -> I!DespawnOk(last'.e) /\ I!DespawnNext(last'.e)
                [] OTHER -> ~I!DespawnOk(last'.e) /\ UNCHANGED <<tab, free, log>>]_mvars
Unbounded == U!Spec
ContractInv == I!SlotsFit /\ I!OnePerSlot
Emit == PrintT("EDGE " \o ToJson([s |-> <<tab, free, log>>, o |-> last', d |-> <<tab', free', log'>>]))
=============================================================================
