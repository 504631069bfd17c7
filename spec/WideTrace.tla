------------------------------ MODULE WideTrace -----------------------------
(***************************************************************************)
(* Ecs with very many different component sets at once. Entity n has the   *)
(* components set in has[n] (a number read as a mask: component c is there *)
(* when bit c is set), -1 once it is despawned. Component 0 is a type with *)
(* data, 1 a type without, all others are entities used as components.     *)
(* Every event is a bulk of steps of Ecs.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
VARIABLES l, has, ncomp, gone
wvars == <<has, ncomp, gone>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
OnSet == LET given == ndJsonDeserialize(IOEnv.ONFILE)[1].on IN {given[i] : i \in 1..Len(given)}
Ev == Trace[l]
Chk(f, what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, f, what>>) /\ f \notin OnSet
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1

Bits == [i \in 1..30 |-> 2^(i - 1)]
Bit(c) == Bits[c + 1]
In(m, c) == (m \div Bit(c)) % 2 = 1
Flip(m, c) == IF In(m, c) THEN m - Bit(c) ELSE m + Bit(c)
N == Len(has)
\* entities are numbered from 0 by the driver
Alive == {n \in 0..N - 1 : has[n + 1] >= 0}
Having(q) == {n \in Alive : \A i \in 1..Len(q) : In(has[n + 1], q[i])}
Picked(n) == has[n + 1] >= 0 /\ n % Ev.m = Ev.r
Change(F(_, _)) == has' = TLCEval([i \in 1..N |-> IF Picked(i - 1) THEN F(i - 1, has[i]) ELSE has[i]])
Values == Chk("drop", <<"values not destroyed", Ev.live>>, Ev.live = Cardinality({i \in 1..Len(has') : has'[i] >= 0 /\ has'[i] % 2 = 1}))

TWorld == Is("world") /\ has' = <<>> /\ ncomp' = Ev.tags + 2 /\ gone' = {}
TMake == Is("make") /\ has' = has \o Ev.masks /\ UNCHANGED <<ncomp, gone>> /\ Values
TWalk == Is("walk") /\ has' = TLCEval([has EXCEPT ![Ev.e + 1] = FoldLeft(Flip, @, Ev.seq)]) /\ UNCHANGED <<ncomp, gone>> /\ Values
TFlip == Is("flip") /\ Change(LAMBDA n, m : Flip(m, Ev.c)) /\ UNCHANGED <<ncomp, gone>> /\ Values
TKill == Is("kill") /\ Change(LAMBDA n, m : 0 - 1) /\ UNCHANGED <<ncomp, gone>> /\ Chk("id", "despawn", Ev.odd = 0) /\ Values
TUntag == /\ Is("untag") /\ has' = TLCEval([i \in 1..N |-> IF has[i] >= 0 /\ In(has[i], Ev.c) THEN has[i] - Bit(Ev.c) ELSE has[i]])
          /\ gone' = gone \cup {Ev.c} /\ UNCHANGED ncomp /\ Chk("id", "despawn", Ev.odd = 0) /\ Values
TTag == Is("tag") /\ ncomp' = ncomp + 1 /\ UNCHANGED <<has, gone>> /\ Values
TWrite == Is("write") /\ UNCHANGED wvars /\ Values

Fam(how) == CASE how = "t" -> "iter" [] how = "g" -> "get" [] how = "h" -> "comps" [] how = "m" -> "ptr" [] how = "d" -> "dyn" [] OTHER -> "cols"
TLook == /\ Is("look") /\ UNCHANGED wvars /\ Values
         /\ LET want == Having(Ev.q) got == Range(Ev.rows) IN
            Chk(Fam(Ev.how), <<"missing", Cardinality(want \ got), "extra", Cardinality(got \ want), "rows", Len(Ev.rows)>>, got = want /\ Len(Ev.rows) = Cardinality(want))
TWhere == /\ Is("where") /\ UNCHANGED wvars /\ Values
          /\ LET at == Range(Ev.at) IN
             /\ Chk("loc", "entities with a position", {p[1] : p \in at} = Alive)
             /\ Chk("loc", "positions shared", Cardinality({<<p[2], p[3]>> : p \in at}) = Cardinality(Alive))
             /\ LET pairs == {<<p[2], has[p[1] + 1]>> : p \in at} IN
                Chk("loc", "groups are not the component sets",
                    Cardinality({x[1] : x \in pairs}) = Cardinality(pairs) /\ Cardinality({x[2] : x \in pairs}) = Cardinality(pairs))
TPanic == Is("panic") /\ UNCHANGED wvars /\ Chk(IF Ev.how = "" THEN "res" ELSE Fam(Ev.how), <<Ev.in, "panicked">>, FALSE)
TEnd == Is("end") /\ UNCHANGED wvars /\ Chk("drop", <<"values not destroyed", Ev.live>>, Ev.live = 0)
TSpec == l = 1 /\ has = <<>> /\ ncomp = 0 /\ gone = {}
         /\ [][TWorld \/ TMake \/ TWalk \/ TFlip \/ TKill \/ TUntag \/ TTag \/ TWrite \/ TLook \/ TWhere \/ TPanic \/ TEnd]_<<l, wvars>>
View == l
Accepted == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
