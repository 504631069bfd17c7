------------------------------ MODULE LockSteps -----------------------------
(* QueryLocks without bounds and without queues: any queries, over any number of components, by any number of actors, each *)
(* taking one reader-writer lock after the other and giving them back one after the other. Used by the proof LockProof.  *)
EXTENDS Integers, Sequences
CONSTANTS Actors, Comps, Queries, None
ASSUME Known == Queries \subseteq Seq({"R", "W"} \X Comps) /\ None \notin Queries
VARIABLES asked, got, left
lvars == <<asked, got, left>>

First(a) == IF left[a] > 0 THEN left[a] + 1 ELSE 1
\* the positions of the locks it has at the moment
Has(a) == IF asked[a] = None THEN {} ELSE First(a)..got[a]
Mode(a, i) == asked[a][i][1]
Comp(a, i) == asked[a][i][2]
Free(a, i) == \A b \in Actors : \A j \in Has(b) : Comp(b, j) = Comp(a, i) => Mode(b, j) = "R" /\ Mode(a, i) = "R"

Init == asked = [a \in Actors |-> None] /\ got = [a \in Actors |-> 0] /\ left = [a \in Actors |-> -1]
Start(a) == asked[a] = None /\ (\E q \in Queries : asked' = [asked EXCEPT ![a] = q]) /\ UNCHANGED <<got, left>>
Take(a) == /\ asked[a] # None /\ left[a] = -1 /\ got[a] < Len(asked[a]) /\ Free(a, got[a] + 1)
           /\ got' = [got EXCEPT ![a] = got[a] + 1] /\ UNCHANGED <<asked, left>>
Exists(a) == asked[a] # None /\ got[a] = Len(asked[a]) /\ left[a] = -1
Drop(a) == Exists(a) /\ left' = [left EXCEPT ![a] = 0] /\ UNCHANGED <<asked, got>>
Give(a) == left[a] >= 0 /\ left[a] < got[a] /\ left' = [left EXCEPT ![a] = left[a] + 1] /\ UNCHANGED <<asked, got>>
Done(a) == /\ left[a] >= 0 /\ left[a] = got[a] /\ left' = [left EXCEPT ![a] = -1] /\ got' = [got EXCEPT ![a] = 0]
           /\ asked' = [asked EXCEPT ![a] = None]
Next == \E a \in Actors : Start(a) \/ Take(a) \/ Drop(a) \/ Give(a) \/ Done(a)
Spec == Init /\ [][Next]_lvars

\* C10: of two queries that exist neither writes what the other names
Excluded == \A a, b \in Actors : a # b /\ Exists(a) /\ Exists(b) =>
               \A i \in 1..Len(asked[a]) : \A j \in 1..Len(asked[b]) :
                   Comp(a, i) = Comp(b, j) => Mode(a, i) = "R" /\ Mode(b, j) = "R"
\* and nothing but another's lock on the same component keeps a query from its next lock
NotHindered(a) == asked[a] # None /\ left[a] = -1 /\ got[a] < Len(asked[a])
                  /\ (\A b \in Actors : \A j \in Has(b) : Comp(b, j) # Comp(a, got[a] + 1))
                  => Free(a, got[a] + 1)
=============================================================================
