------------------------------ MODULE HeapTrace -----------------------------
(* Allocator traffic of whole lives of worlds, builders and vectors against Heap. Blocks are numbered in the order they *)
(* were obtained; -1 is an address that was never obtained. Blocks that the driver itself obtained are left out.        *)
EXTENDS Heap, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Chk(what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, "heap", what>>) /\ FALSE
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
Layout(b) == IF IsLive(b) THEN live[b] ELSE <<"not live", b>>

TStart == Is("world") /\ live' = <<>>
TAlloc == Is("a") /\ Chk(<<"zero size, bad alignment or block twice", Ev.s, Ev.al>>, ~IsLive(Ev.b) /\ LayoutOk(Ev.s, Ev.al)) /\ Alloc(Ev.b, Ev.s, Ev.al)
TDealloc == Is("d") /\ Chk(<<"released as", Ev.s, Ev.al, "obtained as", Layout(Ev.b)>>, Named(Ev.b, Ev.s, Ev.al)) /\ Dealloc(Ev.b, Ev.s, Ev.al)
TRealloc == Is("r") /\ Chk(<<"reallocated as", Ev.s, Ev.al, "obtained as", Layout(Ev.b)>>, Named(Ev.b, Ev.s, Ev.al) /\ Ev.s2 > 0)
            /\ Realloc(Ev.b, Ev.s, Ev.al, Ev.b2, Ev.s2)
TEnd == Is("end") /\ Chk(<<"never released", live>>, DOMAIN live = {}) /\ live' = <<>>

TInit == HInit /\ l = 1
TSpec == TInit /\ [][TStart \/ TAlloc \/ TDealloc \/ TRealloc \/ TEnd]_<<live, l>>
View == l
Accepted == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
