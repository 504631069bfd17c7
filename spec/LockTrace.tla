------------------------------ MODULE LockTrace -----------------------------
(* Queries held by real threads against QueryHold. "acq" is logged after the query was obtained, "rel" before it is      *)
(* dropped, so a logged overlap is a real one. "stuck" says that nothing happened for many seconds although the driver    *)
(* expected the query to be granted; "blocked" is only that it was not granted at once, which is always possible.         *)
(* Compatible is checked whenever one is granted, which makes Exclusive hold throughout.                                  *)
(* A query that names a component nobody ever had yields nothing; what it holds is left open ("weak").                    *)
EXTENDS QueryHold, TLC, Json, IOUtils
VARIABLE l
\* six threads, and the queries that one thread holds one inside the other
ActorSet == 1..306
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Chk(what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, "hold", what>>) /\ FALSE
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
TStart == Is("world") /\ want' = [a \in Actors |-> None] /\ held' = [a \in Actors |-> None]
TAsk == Is("ask") /\ Ask(Ev.a, IF Ev.weak = 1 THEN {} ELSE SetOf(Ev.q))
TAcq == Is("acq") /\ Chk(<<"two conflicting queries exist", want[Ev.a], held>>, Compatible(Ev.a)) /\ Grant(Ev.a)
TRel == Is("rel") /\ Release(Ev.a)
TBlocked == Is("blocked") /\ UNCHANGED hvars
TStuck == Is("stuck") /\ Chk(<<"is not granted though nothing conflicts", want[Ev.a], "existing", held>>, MayWait(Ev.a)) /\ UNCHANGED hvars
\* a query that names a component twice, and one of them to write it, waits for itself: it is never granted, or refused
Selfish(q) == \E i, j \in 1..Len(q) : i # j /\ q[i][2] = q[j][2] /\ q[i][1] = "W"
AskedBy(a) == LET i == CHOOSE i \in 1..l - 1 : /\ Trace[i].op = "ask" /\ Trace[i].a = a
                                             /\ \A k \in i + 1..l - 1 : Trace[k].op = "ask" => Trace[k].a # a
              IN Trace[i].q
TPanic == Is("panic") /\ Chk("obtaining, using or dropping a query panicked", Selfish(AskedBy(Ev.a))) /\ UNCHANGED hvars
TInit == HInit /\ l = 1
TSpec == TInit /\ [][TStart \/ TAsk \/ TAcq \/ TRel \/ TBlocked \/ TStuck \/ TPanic]_<<hvars, l>>
View == l
Accepted == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
