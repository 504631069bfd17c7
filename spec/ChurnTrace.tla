----------------------------- MODULE ChurnTrace -----------------------------
(* Memory held after each round of a workload that repeats itself exactly and returns to the same population over a     *)
(* fixed set of components: after half of the rounds it has reached its maximum. Slack allows for amortised growth of    *)
(* the driver's own tables; a leak of one byte a round exceeds it given enough rounds, one of a block a round always.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES l, early, rounds
Trace == ndJsonDeserialize(IOEnv.TRACE)
Slack == 2048
Ev == Trace[l]
Chk(what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, "held", what>>) /\ FALSE
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
TStart == Is("world") /\ early' = 0 /\ rounds' = Ev.rounds
TEarly == Is("round") /\ 2 * Ev.n <= rounds /\ early' = (IF Ev.held > early THEN Ev.held ELSE early) /\ UNCHANGED rounds
TLate == Is("round") /\ 2 * Ev.n > rounds
         /\ Chk(<<"held", Ev.held, "at most before", early>>, Ev.held <= early + Slack) /\ UNCHANGED <<early, rounds>>
TEnd == Is("end") /\ UNCHANGED <<early, rounds>>
TSpec == l = 1 /\ early = 0 /\ rounds = 0 /\ [][TStart \/ TEarly \/ TLate \/ TEnd]_<<l, early, rounds>>
View == l
Accepted == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
