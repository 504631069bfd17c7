------------------------------ MODULE BulkTrace -----------------------------
(***************************************************************************)
(* Ecs seen through counts, for worlds too large or histories too long to  *)
(* be followed entity by entity: how many ids were issued, how many alive  *)
(* entities have each set of the components V (1) and Z (2), how many      *)
(* entities there were at most. An event is a bulk of equal operations;    *)
(* what was observed afterwards must be what these counts imply. Each     *)
(* bulk is n steps of Ecs (see MCEcs, which checks this abstraction).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES l, issued, cnt, peak
bvars == <<issued, cnt, peak>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
OnSet == LET given == ndJsonDeserialize(IOEnv.ONFILE)[1].on IN {given[i] : i \in 1..Len(given)}
Ev == Trace[l]
Chk(f, what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, f, what>>) /\ f \notin OnSet
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1

Masks == 0..3
V(m) == m % 2 = 1
Includes(m, q) == (V(q) => V(m)) /\ (q \div 2 = 1 => m \div 2 = 1)
With(c, q) == LET n(m) == IF Includes(m, q) THEN c[m] ELSE 0 IN n(0) + n(1) + n(2) + n(3)
Sum(c) == With(c, 0)
Max(a, b) == IF a >= b THEN a ELSE b
NonEmpty(c) == LET n(m) == IF c[m] > 0 THEN 1 ELSE 0 IN n(0) + n(1) + n(2) + n(3)

Rows(f, what, obs) == \A i \in 1..Len(obs) : Chk(f, <<what, "of set", obs[i][1], "rows", obs[i][2], "wrong", obs[i][3], "expected", With(cnt', obs[i][1])>>,
                                                  obs[i][2] = With(cnt', obs[i][1]) /\ obs[i][3] = 0)
\* the state after the bulk, as seen
Seen == /\ Chk("id", <<"alive", Ev.alive, "expected", Sum(cnt')>>, Ev.alive = Sum(cnt'))
        /\ Chk("stale", <<"stale ids that did or showed something", Ev.odd>>, Ev.odd = 0)
        /\ Chk("slot", <<"slots", Ev.slots, "peak", peak'>>, Ev.slots <= peak')
        /\ Rows("iter", "typed query", Ev.q) /\ Rows("dyn", "dynamic query", Ev.d) /\ Rows("cols", "column query", Ev.c)
        /\ Chk("get", <<"point lookups", Ev.get, "expected", With(cnt', 1)>>, Ev.get = <<With(cnt', 1), 0>>)
        /\ Chk("comps", <<"wrong answers of has_component", Ev.has>>, Ev.has = 0)
        /\ Chk("loc", <<"positions", Ev.at, "groups", Ev.groups, "mixed", Ev.off>>, Ev.at = Sum(cnt') /\ Ev.groups = NonEmpty(cnt') /\ Ev.off = 0)
        /\ Chk("drop", <<"values not destroyed", Ev.live, "expected", With(cnt', 1)>>, Ev.live = With(cnt', 1))
Done == Chk("res", <<"carried out", Ev.done, "of", Ev.n>>, Ev.done = Ev.n)

TWorld == Is("world") /\ issued' = 2 /\ cnt' = [m \in Masks |-> IF m = 0 THEN 2 ELSE 0] /\ peak' = 2 /\ Seen
TGrow == Is("grow") /\ issued' = issued + Ev.n /\ cnt' = [cnt EXCEPT ![Ev.s] = @ + Ev.n] /\ peak' = Max(peak, Sum(cnt')) /\ Done /\ Seen
TShrink == Is("shrink") /\ cnt' = [cnt EXCEPT ![Ev.s] = @ - Ev.n] /\ UNCHANGED <<issued, peak>> /\ Done /\ Seen
TMove == Is("move") /\ cnt' = [cnt EXCEPT ![Ev.s] = @ - Ev.n, ![Ev.to] = @ + Ev.n] /\ UNCHANGED <<issued, peak>> /\ Done /\ Seen
\* an entity that comes and goes, again and again; an abandoned one has no id anybody knows
TCycle == Is("cycle") /\ issued' = issued + Ev.n /\ peak' = (IF Ev.n > 0 THEN Max(peak, Sum(cnt) + 1) ELSE peak) /\ UNCHANGED cnt /\ Done /\ Seen
TAbandon == Is("abandon") /\ peak' = (IF Ev.n > 0 THEN Max(peak, Sum(cnt) + 1) ELSE peak) /\ UNCHANGED <<issued, cnt>> /\ Done /\ Seen
TWrite == Is("write") /\ UNCHANGED bvars /\ Done /\ Seen
TPanic == Is("panic") /\ UNCHANGED bvars /\ Chk("res", "an ordinary operation panicked", FALSE) /\ Chk("panic", "an ordinary operation panicked", FALSE)
TEnd == /\ Is("end") /\ UNCHANGED bvars
        /\ Chk("id", <<"different ids", Ev.ids, "handed out", issued>>, Ev.ids = issued)
        /\ Chk("drop", <<"values not destroyed", Ev.live>>, Ev.live = 0)
TSpec == /\ l = 1 /\ issued = 0 /\ cnt = [m \in Masks |-> 0] /\ peak = 0
         /\ [][TWorld \/ TGrow \/ TShrink \/ TMove \/ TCycle \/ TAbandon \/ TWrite \/ TPanic \/ TEnd]_<<l, bvars>>
View == l
Accepted == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
