----------------------------- MODULE EntityAlloc ----------------------------
(***************************************************************************)
(* How arche_tape::entities::Entities hands out ids: a table of slots with *)
(* a generation each and a stack of free slots. A reused slot's generation *)
(* goes up, modulo Gens (2^32 in the code). log is history, not state.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Gens
VARIABLES tab,   \* slot -> whether it is in use, and its generation
          free,  \* the slots not in use, the one freed last at the end
          log    \* every id handed out: <<slot, generation>>
avars == <<tab, free, log>>

AInit == tab = <<>> /\ free = <<>> /\ log = <<>>
\* the id the next spawn hands out
NextSlot == IF free = <<>> THEN Len(tab) + 1 ELSE free[Len(free)]
NextGen == IF free = <<>> THEN 0 ELSE (tab[NextSlot].gen + 1) % Gens
NextId == <<NextSlot, NextGen>>
Spawn == /\ log' = Append(log, NextId)
         /\ IF free = <<>> THEN /\ tab' = Append(tab, [alive |-> TRUE, gen |-> 0])
                                /\ UNCHANGED free
            ELSE /\ tab' = [tab EXCEPT ![NextSlot] = [alive |-> TRUE, gen |-> NextGen]]
                 /\ free' = SubSeq(free, 1, Len(free) - 1)
\* an id the code takes for alive
IsAlive(id) == tab[id[1]].alive /\ tab[id[1]].gen = id[2]
Despawn(id) == /\ IsAlive(id)
               /\ tab' = [tab EXCEPT ![id[1]].alive = FALSE] /\ free' = Append(free, id[1]) /\ UNCHANGED log
ANext == Spawn \/ \E i \in 1..Len(log) : Despawn(log[i])
ASpec == AInit /\ [][ANext]_avars

Uses(s) == Cardinality({i \in 1..Len(log) : log[i][1] = s})
\* no slot was used more often than there are generations
WithinBounds == \A s \in 1..Len(tab) : Uses(s) <= Gens
FreeExact == /\ \A i, j \in 1..Len(free) : free[i] = free[j] => i = j
             /\ {free[i] : i \in 1..Len(free)} = {s \in 1..Len(tab) : ~tab[s].alive}
\* C01 up to the bound on reuse
Unique == WithinBounds => \A i, j \in 1..Len(log) : log[i] = log[j] => i = j
=============================================================================
