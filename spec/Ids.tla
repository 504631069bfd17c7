--------------------------------- MODULE Ids --------------------------------
(***************************************************************************)
(* What ids promise (C01, C02, C16), for the allocator of ids alone: an id *)
(* handed out is new, is alive until it is despawned and never again, and  *)
(* a slot nobody used is taken only when every other is in use. Ids are    *)
(* numbered in the order they are handed out. EntityAlloc refines this,    *)
(* Ecs says the same about the ids of a whole world.                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
VARIABLES n,       \* how many ids were handed out
          alive,   \* which of them are alive
          slotOf,  \* id -> slot
          peak     \* most that were alive together
ivars == <<n, alive, slotOf, peak>>

Max(a, b) == IF a >= b THEN a ELSE b
Used == {slotOf[i] : i \in DOMAIN slotOf}
InUse == {slotOf[i] : i \in alive}
Init == n = 0 /\ alive = {} /\ slotOf = [i \in {} |-> 0] /\ peak = 0
SlotOk(s) == s \notin InUse /\ (s \notin Used => Used = InUse)
SpawnNext(s) == /\ n' = n + 1 /\ alive' = alive \cup {n + 1} /\ peak' = Max(peak, Cardinality(alive) + 1)
                /\ slotOf' = [i \in 1..(n + 1) |-> IF i = n + 1 THEN s ELSE slotOf[i]]
DespawnOk(e) == e \in alive
DespawnNext(e) == alive' = alive \ {e} /\ UNCHANGED <<n, slotOf, peak>>
Next == \/ \E s \in Nat : SlotOk(s) /\ SpawnNext(s)
        \/ \E e \in alive : DespawnNext(e)
Spec == Init /\ [][Next]_ivars

\* consequences
SlotsFit == Cardinality(Used) <= peak
OnePerSlot == \A a, b \in alive : slotOf[a] = slotOf[b] => a = b
=============================================================================
