-------------------------------- MODULE Heap --------------------------------
(* The allocator protocol: which blocks are live, and with which layout each was obtained. *)
EXTENDS Integers, FiniteSets
VARIABLE live                    \* block -> <<size, alignment>>
HInit == live = <<>>
PowerOfTwo(n) == n \in {2^k : k \in 0..16}
LayoutOk(s, a) == s > 0 /\ PowerOfTwo(a)
IsLive(b) == b \in DOMAIN live
Named(b, s, a) == IsLive(b) /\ live[b] = <<s, a>>     \* the caller names the block's true layout
With(b, s, a) == [x \in DOMAIN live \cup {b} |-> IF x = b THEN <<s, a>> ELSE live[x]]
Without(b) == [x \in DOMAIN live \ {b} |-> live[x]]
Alloc(b, s, a) == ~IsLive(b) /\ LayoutOk(s, a) /\ live' = With(b, s, a)
Dealloc(b, s, a) == Named(b, s, a) /\ live' = Without(b)
Realloc(b, s, a, c, t) == Named(b, s, a) /\ t > 0 /\ (c = b \/ ~IsLive(c))
                          /\ live' = [x \in (DOMAIN live \ {b}) \cup {c} |-> IF x = c THEN <<t, a>> ELSE live[x]]
=============================================================================
