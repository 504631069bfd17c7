------------------------------- MODULE IdTrace ------------------------------
(***************************************************************************)
(* Recorded executions of arche_tape::entities::Entities, judged by Ids.   *)
(* Small executions are followed id by id; in bulk ones (millions of ids)  *)
(* n and the number of alive ids are counted (alive, slotOf stay empty).   *)
(* An id is reported by the number of the first id it cannot be told from. *)
(***************************************************************************)
EXTENDS Ids, Sequences, TLC, Json, IOUtils
VARIABLES l, cnt
Trace == ndJsonDeserialize(IOEnv.TRACE)
OnSet == LET given == ndJsonDeserialize(IOEnv.ONFILE)[1].on IN {given[i] : i \in 1..Len(given)}
Ev == Trace[l]
Chk(f, what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, f, what>>) /\ f \notin OnSet
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
ToSet(s) == {s[i] : i \in 1..Len(s)}

TWorld == Is("world") /\ n' = 0 /\ alive' = {} /\ slotOf' = [i \in {} |-> 0] /\ peak' = 0 /\ cnt' = 0
TSpawn == /\ Is("spawn") /\ Chk("id", <<"the new id is the old id", Ev.id>>, Ev.id = n + 1)
          /\ Chk("slot", <<"slot", Ev.slot, "in use", InUse, "free", Used \ InUse>>, SlotOk(Ev.slot))
          /\ SpawnNext(Ev.slot) /\ cnt' = cnt + 1
TDespawn == /\ Is("despawn")
            /\ Chk(IF Ev.e \in alive THEN "id" ELSE "stale", <<"despawn of", Ev.e, "alive", Ev.e \in alive>>, Ev.res = DespawnOk(Ev.e))
            /\ IF Ev.e \in alive THEN DespawnNext(Ev.e) /\ cnt' = cnt - 1 ELSE UNCHANGED <<ivars, cnt>>
TAlive == /\ Is("alive") /\ UNCHANGED <<ivars, cnt>>
          /\ Chk("id", <<"reported dead", alive \ ToSet(Ev.set)>>, alive \subseteq ToSet(Ev.set))
          /\ Chk("id", <<"reported alive", ToSet(Ev.set) \ alive>>, ToSet(Ev.set) \subseteq alive)
          /\ Chk("stale", <<"reported alive", ToSet(Ev.set) \ alive>>, ToSet(Ev.set) \subseteq alive)
\* after a bulk: how many of all ids report alive, how many answer otherwise than they should, and the highest slot
Seen == /\ Chk("id", <<"alive", Ev.alive, "expected", cnt', "wrong answers", Ev.odd>>, Ev.alive = cnt' /\ Ev.odd = 0)
        /\ Chk("stale", <<"stale ids that did something", Ev.again, "wrong answers", Ev.odd>>, Ev.again = 0 /\ Ev.odd = 0)
        /\ Chk("slot", <<"slots", Ev.slots, "peak", peak'>>, Ev.slots <= peak')
TSpawns == /\ Is("spawns") /\ n' = n + Ev.n /\ cnt' = cnt + Ev.n /\ peak' = Max(peak, cnt + Ev.n) /\ UNCHANGED <<alive, slotOf>> /\ Seen
\* each of them despawned once, and some of those already dead once more
TDespawns == /\ Is("despawns") /\ cnt' = cnt - Ev.n /\ UNCHANGED ivars /\ Seen
             /\ Chk("id", <<"despawned", Ev.done, "of", Ev.n>>, Ev.done = Ev.n)
\* one comes and goes, many times
TCycles == /\ Is("cycles") /\ n' = n + Ev.n /\ peak' = Max(peak, cnt + 1) /\ UNCHANGED <<alive, slotOf, cnt>> /\ Seen
           /\ Chk("id", <<"despawned", Ev.done, "of", Ev.n>>, Ev.done = Ev.n)
TPanic == Is("panic") /\ UNCHANGED <<ivars, cnt>> /\ (\A f \in OnSet : Chk(f, "panicked", FALSE))
TEnd == Is("end") /\ UNCHANGED <<ivars, cnt>> /\ Chk("id", <<"different ids", Ev.ids, "handed out", n>>, Ev.ids = n)
TSpec == l = 1 /\ Init /\ cnt = 0
         /\ [][TWorld \/ TSpawn \/ TDespawn \/ TAlive \/ TSpawns \/ TDespawns \/ TCycles \/ TPanic \/ TEnd]_<<l, cnt, ivars>>
View == l
Accepted == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
