------------------------------ MODULE Builder -------------------------------
(***************************************************************************)
(* The entity builder as coded: the values of an entity under way lie one  *)
(* behind the other, unaligned, in a block of bytes that grows by doubling *)
(* and is handed from one builder to the next; building takes them out     *)
(* again by the sizes of the components, in the order they were put in.    *)
(* Component c has Sizes[c] bytes; ids are ordered as the numbers are.     *)
(* ArcheTape has building as one step; this module says that it may.       *)
(* Broken names a mistake for the specification to find.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sizes, Hints, Broken
VARIABLES cur,     \* the builder: [cap, len, ids, mem], or NoBuilder; cap 0: it has no block
          reuse,   \* capacity of the block kept for the next builder, 0: none
          blocks,  \* blocks obtained and not given back: how many of which capacity
          groups,  \* component sets there is a group of
          done     \* what the last step delivered (row: component -> bytes) and destroyed (set of values)
vars == <<cur, reuse, blocks, groups, done>>
Comps == 1..Len(Sizes)
NoBuilder == [cap |-> -1, len |-> 0, ids |-> <<>>, mem |-> <<>>]
Nothing == [row |-> <<>>, lost |-> {}]

Max(a, b) == IF a > b THEN a ELSE b
Get(B, n) == [c \in DOMAIN B \cup {n} |-> (IF c \in DOMAIN B THEN B[c] ELSE 0) + (IF c = n THEN 1 ELSE 0)]
Give(B, n) == LET m == [B EXCEPT ![n] = @ - 1] IN [c \in {x \in DOMAIN m : m[x] > 0} |-> m[c]]
Bytes(c) == [i \in 1..Sizes[c] |-> <<c, i>>]        \* the value of c that was given, byte by byte
Garbage(n) == [i \in 1..n |-> <<0, 0>>]
RECURSIVE Offset(_, _)
Offset(ids, n) == IF n = 1 THEN 0 ELSE Offset(ids, n - 1) + Sizes[ids[n - 1]]
Members(ids) == {ids[n] : n \in 1..Len(ids)}

\* spawn, spawn_with_capacity. A block that was kept is taken whatever was asked for
Start(hint) ==
    /\ cur = NoBuilder
    /\ LET cap == IF reuse > 0 THEN reuse ELSE hint IN
       /\ cur' = [cap |-> IF Broken = "hint" /\ reuse > 0 THEN Max(reuse, hint) ELSE cap, len |-> 0, ids |-> <<>>, mem |-> Garbage(cap)]
       /\ blocks' = IF reuse = 0 /\ hint > 0 THEN Get(blocks, hint) ELSE blocks
    /\ reuse' = 0 /\ done' = Nothing /\ UNCHANGED groups

\* with, with_dynamic_with_data; with_dynamic for a component without bytes
With(c) ==
    /\ cur.cap >= 0 /\ c \notin Members(cur.ids)
    /\ LET need == cur.len + Sizes[c]
           grown == IF need <= cur.cap THEN cur.cap
                    ELSE IF Broken = "double" /\ cur.cap > 0 THEN cur.cap * 2 ELSE Max(need, cur.cap * 2)
           mem == [i \in 1..grown |-> IF i <= Len(cur.mem) /\ Broken # "keep" THEN cur.mem[i] ELSE <<0, 0>>]
       IN /\ cur' = [cap |-> grown, len |-> need, ids |-> Append(cur.ids, c),
                     mem |-> [i \in 1..grown |-> IF i > cur.len /\ i <= need THEN <<c, i - cur.len>> ELSE mem[i]]]
          /\ blocks' = IF grown = cur.cap THEN blocks ELSE IF cur.cap = 0 THEN Get(blocks, grown) ELSE Get(Give(blocks, cur.cap), grown)
    /\ done' = Nothing /\ UNCHANGED <<reuse, groups>>

\* the end of every builder: its block is kept if none is
Ended(keep) ==
    /\ cur' = NoBuilder
    /\ reuse' = IF keep > 0 /\ reuse = 0 THEN keep ELSE reuse
    /\ blocks' = IF keep > 0 /\ reuse > 0 THEN Give(blocks, keep) ELSE blocks
Slice(at, n) == IF at + n <= Len(cur.mem) THEN SubSeq(cur.mem, at + 1, at + n) ELSE Garbage(n)

\* the columns of the group are those of the set in the order of the ids; the values lie in the order of the builder
Build ==
    /\ cur.cap >= 0
    /\ LET ids == cur.ids
           n(c) == CHOOSE i \in 1..Len(ids) : ids[i] = c
           sorted == CHOOSE q \in [1..Len(ids) -> Members(ids)] : \A i, j \in 1..Len(ids) : i < j => q[i] < q[j]
           place(c) == IF Broken = "order" /\ Members(ids) \in groups THEN Offset(sorted, CHOOSE i \in 1..Len(ids) : sorted[i] = c) ELSE Offset(ids, n(c))
       IN done' = [row |-> [c \in Members(ids) |-> Slice(place(c), Sizes[c])], lost |-> {}]
    /\ groups' = groups \cup {Members(cur.ids)}
    /\ Ended(cur.cap)

\* dropped without building, and a refusal, which drops it: the values in it are destroyed, each found by the sizes of those before it
Abandon ==
    /\ cur.cap >= 0
    /\ done' = [row |-> <<>>, lost |-> {Slice(Offset(cur.ids, i), Sizes[cur.ids[i]]) : i \in 1..Len(cur.ids) - (IF Broken = "last" THEN 1 ELSE 0)}]
    /\ UNCHANGED groups
    /\ Ended(cur.cap)
Refuse(c) == c \in Members(cur.ids) /\ Abandon

Init == cur = NoBuilder /\ reuse = 0 /\ blocks = <<>> /\ groups = {} /\ done = Nothing
Next == \/ \E h \in Hints : Start(h)
        \/ \E c \in Comps : With(c) \/ Refuse(c)
        \/ Build \/ Abandon
Spec == Init /\ [][Next]_vars

(* The contract *)
\* C14, C04: what was given lies in the buffer whole, and what is built is what was given, whole, whatever was there before
Fits == cur.cap >= 0 => cur.len <= cur.cap /\ Len(cur.mem) = cur.cap /\ cur.len = Offset(Append(cur.ids, 1), Len(cur.ids) + 1)
Intact == \A n \in 1..Len(cur.ids) : Slice(Offset(cur.ids, n), Sizes[cur.ids[n]]) = Bytes(cur.ids[n])
Delivered == [][Build => done'.row = [c \in Members(cur.ids) |-> Bytes(c)]]_vars
\* C09: a builder that is not built destroys exactly what it was given
Destroyed == [][(cur.cap >= 0 /\ cur' = NoBuilder /\ groups' = groups /\ done'.row = <<>>) =>
                  \/ done'.lost = {Bytes(cur.ids[n]) : n \in 1..Len(cur.ids)}
                  \/ cur.ids = <<>>]_vars
\* C17, C16: every block is that of the builder or the one that is kept, with the capacity that is remembered for it; there is never a second one to keep
Blocks == blocks = LET own == IF cur.cap > 0 THEN Get(<<>>, cur.cap) ELSE <<>> IN IF reuse > 0 THEN Get(own, reuse) ELSE own
OneBlock == reuse > 0 => cur = NoBuilder
=============================================================================
