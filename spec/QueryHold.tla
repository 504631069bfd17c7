------------------------------ MODULE QueryHold -----------------------------
(* What the holders of queries can rely on: a query that is asked for comes into existence only while no existing one  *)
(* conflicts with it. A query is a set of <<mode, component>> with mode "R" or "W".                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Actors, None
VARIABLES want, held             \* actor -> query or None; want is None again once it is held
hvars == <<want, held>>

Conflict(q, r) == \E x \in q, y \in r : x[2] = y[2] /\ (x[1] = "W" \/ y[1] = "W")
Comps(q) == {x[2] : x \in q}
Existing(a) == {b \in Actors \ {a} : held[b] # None}
Compatible(a) == \A b \in Existing(a) : ~Conflict(want[a], held[b])

HInit == want = [a \in Actors |-> None] /\ held = [a \in Actors |-> None]
Ask(a, q) == want[a] = None /\ held[a] = None /\ want' = [want EXCEPT ![a] = q] /\ UNCHANGED held
Grant(a) == want[a] # None /\ Compatible(a) /\ held' = [held EXCEPT ![a] = want[a]] /\ want' = [want EXCEPT ![a] = None]
Release(a) == held[a] # None /\ held' = [held EXCEPT ![a] = None] /\ UNCHANGED want

HNext(Queries) == \E a \in Actors : (\E q \in Queries : Ask(a, q)) \/ Grant(a) \/ Release(a)
Implemented(Queries) == HInit /\ [][HNext(Queries)]_hvars

\* C10
Exclusive == \A a, b \in Actors : a # b /\ held[a] # None /\ held[b] # None => ~Conflict(held[a], held[b])
\* a query that is not granted has something to wait for: an existing query, or one that is itself waiting (and may have
\* been granted part of what it names), with which it shares a component
MayWait(a) == \/ ~Compatible(a)
              \/ \E b \in Actors \ {a} : want[b] # None /\ Conflict(want[a], want[b])
=============================================================================
