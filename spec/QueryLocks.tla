----------------------------- MODULE QueryLocks -----------------------------
(* How the code does it: one reader-writer lock per component, taken one after the other in the order the query names   *)
(* them, given back one after the other. A waiting writer keeps new readers out. Shown: it implements QueryHold; a query *)
(* that shares no component with any other never waits; and if all queries name components in one order every query is   *)
(* granted once others stop being asked for (without that order two can wait for each other for ever, see DESIGN.md).   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Actors, Comps, Ordered, None
VARIABLES asked,      \* actor -> sequence of <<mode, component>>, or None
          got,        \* actor -> how many of its locks it has taken
          left,       \* actor -> how many it has given back; -1 while it is not giving back
          queued      \* actors that have announced a write they wait for
vars == <<asked, got, left, queued>>

OneTwo == {<<<<m, c>>>> : m \in {"R", "W"}, c \in Comps}
          \cup {<<<<m, c>>, <<n, d>>>> : m, n \in {"R", "W"}, c, d \in Comps}
\* a query that both writes and uses a component again waits for itself: out of scope
Queries == {q \in OneTwo : Len(q) = 2 => /\ (q[1][2] = q[2][2] => q[1][1] = "R" /\ q[2][1] = "R")
                                         /\ (Ordered => q[1][2] <= q[2][2])
                                         \* and so does a repeated read behind a waiting writer
                                         /\ (Ordered => q[1][2] # q[2][2])}
Locks(a) == IF asked[a] = None THEN {} ELSE {<<asked[a][i][1], asked[a][i][2]>> : i \in (IF left[a] > 0 THEN left[a] + 1 ELSE 1)..got[a]}
Writers(c) == {a \in Actors : <<"W", c>> \in Locks(a)}
Readers(c) == {a \in Actors : <<"R", c>> \in Locks(a)}
Next_(a) == asked[a][got[a] + 1]
Free(a, m, c) == /\ Writers(c) = {}
                 /\ m = "W" => Readers(c) = {}
                 /\ m = "R" => \A b \in queued \ {a} : Next_(b) # <<"W", c>>

Init == asked = [a \in Actors |-> None] /\ got = [a \in Actors |-> 0] /\ left = [a \in Actors |-> -1] /\ queued = {}
Start(a) == asked[a] = None /\ \E q \in Queries : asked' = [asked EXCEPT ![a] = q] /\ UNCHANGED <<got, left, queued>>
Acquiring(a) == asked[a] # None /\ left[a] = -1 /\ got[a] < Len(asked[a])
Take(a) == /\ Acquiring(a) /\ Free(a, Next_(a)[1], Next_(a)[2])
           /\ got' = [got EXCEPT ![a] = @ + 1] /\ queued' = queued \ {a} /\ UNCHANGED <<asked, left>>
Queue(a) == Acquiring(a) /\ a \notin queued /\ Next_(a)[1] = "W" /\ ~Free(a, Next_(a)[1], Next_(a)[2])
            /\ queued' = queued \cup {a} /\ UNCHANGED <<asked, got, left>>
Exists(a) == asked[a] # None /\ got[a] = Len(asked[a]) /\ left[a] = -1
Drop(a) == Exists(a) /\ left' = [left EXCEPT ![a] = 0] /\ UNCHANGED <<asked, got, queued>>
Give(a) == /\ left[a] >= 0 /\ left[a] < got[a] /\ left' = [left EXCEPT ![a] = @ + 1] /\ UNCHANGED <<asked, got, queued>>
Done(a) == /\ left[a] >= 0 /\ left[a] = got[a] /\ left' = [left EXCEPT ![a] = -1] /\ got' = [got EXCEPT ![a] = 0]
           /\ asked' = [asked EXCEPT ![a] = None] /\ UNCHANGED queued
Next == \E a \in Actors : Start(a) \/ Take(a) \/ Queue(a) \/ Drop(a) \/ Give(a) \/ Done(a)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A a \in Actors : SF_vars(Take(a)) /\ WF_vars(Queue(a)) /\ WF_vars(Drop(a)) /\ WF_vars(Give(a)) /\ WF_vars(Done(a))

SetOf(s) == {s[i] : i \in 1..Len(s)}
Hold == INSTANCE QueryHold WITH want <- [a \in Actors |-> IF asked[a] = None \/ left[a] >= 0 \/ Exists(a) THEN None ELSE SetOf(asked[a])],
                                held <- [a \in Actors |-> IF Exists(a) THEN SetOf(asked[a]) ELSE None]
\* the same without queues, about which LockProof proves exclusion for any queries
Steps == INSTANCE LockSteps
ImplementsSteps == Steps!Spec
Implements == Hold!Implemented({SetOf(s) : s \in Queries})
Exclusive == Hold!Exclusive
Uses(a) == IF asked[a] = None THEN {} ELSE {x[2] : x \in SetOf(asked[a])}
NotHindered == \A a \in Actors : Acquiring(a) /\ (\A b \in Actors \ {a} : Uses(a) \cap Uses(b) = {}) => ENABLED Take(a)
\* readers of a component hold it together: no reader waits where only readers are involved
ReadersTogether == \A a \in Actors : Acquiring(a) /\ (\A b \in Actors : asked[b] # None => \A x \in SetOf(asked[b]) : x[1] = "R") => ENABLED Take(a)
\* the locks promise no fairness between queries that keep being asked for, so: once no new ones are
Settles == <>[][\A a \in Actors : asked[a] = None => asked'[a] = None]_vars
Granted == Settles => \A a \in Actors : (asked[a] # None /\ left[a] = -1) ~> Exists(a)
=============================================================================
