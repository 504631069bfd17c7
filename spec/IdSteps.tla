------------------------------- MODULE IdSteps ------------------------------
(* EntityAlloc without bounds: generations are numbers, and which free slot is reused plays no part *)
EXTENDS Integers
VARIABLES n,      \* slots are 1..n
          gen,    \* slot -> generation
          used,   \* slots in use
          log     \* every id handed out, <<slot, generation>>
pvars == <<n, gen, used, log>>

Id(s) == <<s, gen[s]>>
IsLive(i) == i[1] \in used /\ gen[i[1]] = i[2]

Init == n = 0 /\ gen = [s \in 1..0 |-> 0] /\ used = {} /\ log = {}
Fresh == /\ 1..n = used
         /\ n' = n + 1 /\ gen' = [s \in 1..(n + 1) |-> IF s = n + 1 THEN 0 ELSE gen[s]]
         /\ used' = used \cup {n + 1} /\ log' = log \cup {<<n + 1, 0>>}
Reuse(s) == /\ s \in (1..n) \ used
            /\ n' = n /\ gen' = [gen EXCEPT ![s] = gen[s] + 1]
            /\ used' = used \cup {s} /\ log' = log \cup {<<s, gen[s] + 1>>}
Free(i) == /\ i \in log /\ IsLive(i)
           /\ n' = n /\ gen' = gen /\ used' = used \ {i[1]} /\ log' = log
Next == Fresh \/ (\E s \in 1..n : Reuse(s)) \/ (\E i \in log : Free(i))
Spec == Init /\ [][Next]_pvars

\* an id is handed out once: the ids that join the log are exactly one, and it is new and live
Hands(i) == i \notin log /\ log' = log \cup {i} /\ IsLive(i)'
Unique == Next => log' = log \/ \E i \in (1..n') \X Nat : Hands(i)
\* what was handed out and is not live any more never is again
Stays == \A i \in log : i \in log' /\ (~IsLive(i) => ~IsLive(i)')
=============================================================================
