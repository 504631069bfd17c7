----------------------------- MODULE MCQueryHold ----------------------------
(* Scripts for the real code: at most one query waits at a time, and while one does only queries that share nothing    *)
(* with it are asked for. Every edge is printed and replayed with real queries held by real threads.                   *)
EXTENDS QueryHold, TLC, Json
VARIABLE last
Rows == {<<<<m, c>>>> : m \in {"R", "W"}, c \in {1, 2}} \cup {<<<<m, 1>>, <<n, 2>>>> : m, n \in {"R", "W"}}
        \cup {<<<<m, 2>>, <<n, 1>>>> : m, n \in {"R", "W"}}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Waiting == {a \in Actors : want[a] # None}
\* asks and, if nothing conflicts, is granted
Get(a, s) == /\ \A b \in Waiting : Comps(SetOf(s)) \cap Comps(want[b]) = {}
             /\ want[a] = None /\ held[a] = None
             /\ LET q == SetOf(s)
                    ok == \A b \in Existing(a) : ~Conflict(q, held[b])
                IN /\ IF ok THEN held' = [held EXCEPT ![a] = q] /\ UNCHANGED want
                            ELSE want' = [want EXCEPT ![a] = q] /\ UNCHANGED held
                   /\ last' = [op |-> "ask", a |-> a, q |-> s, res |-> IF ok THEN "granted" ELSE "waits"]
\* releases, and whoever waited for nothing else is granted
Put(a) == /\ held[a] # None
          /\ LET h == [held EXCEPT ![a] = None]
                 go == {b \in Waiting : \A c \in Actors : h[c] # None => ~Conflict(want[b], h[c])}
             IN /\ held' = [b \in Actors |-> IF b \in go THEN want[b] ELSE h[b]]
                /\ want' = [b \in Actors |-> IF b \in go THEN None ELSE want[b]]
                /\ last' = [op |-> "rel", a |-> a, q |-> <<>>, res |-> IF go = {} THEN "-" ELSE "granted"]
MInit == HInit /\ last = [op |-> "init", a |-> 0, q |-> <<>>, res |-> "-"]
MNext == \E a \in Actors : Put(a) \/ \E s \in Rows : Get(a, s)
MSpec == MInit /\ [][MNext]_<<hvars, last>>
View == hvars
NoneStuck == \A a \in Waiting : ~Compatible(a)
Emit == PrintT("EDGE " \o ToJson([s |-> hvars, o |-> last', d |-> hvars']))
=============================================================================
