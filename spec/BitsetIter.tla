----------------------------- MODULE BitsetIter -----------------------------
(***************************************************************************)
(* How queries find their groups: each component has a bit vector over the *)
(* groups, made of words of W bits, as long as the last group that ever    *)
(* got a bit; a query goes through the vectors of its components word by   *)
(* word, as coded. ArcheTape has sets in this place; this module says that *)
(* it may: what comes out is the intersection, once each, in order, and    *)
(* after the end nothing ever comes again.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, MaxGroups
VARIABLES vecs, query, whole, it, out, over
bvars == <<vecs, query, whole, it, out, over>>

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* a vector of which the bits in S are set; len: one more than the last bit that was ever set to anything
Words(S, len) == [n \in 1..((len + W - 1) \div W) |-> {b \in 0..W - 1 : (n - 1) * W + b \in S}]
Vec(S, len) == [data |-> Words(S, len), len |-> len]
Vectors(n) == {Vec(S, len) : <<S, len>> \in {<<S, len>> \in (SUBSET (0..n - 1)) \X (0..n) : \A x \in S : x < len}}
\* set_bit as coded
SetBit(v, i, b) ==
    LET d == i \div W
        longer == IF i >= v.len THEN [n \in 1..(IF Len(v.data) < d + 1 THEN d + 1 ELSE Len(v.data)) |-> IF n <= Len(v.data) THEN v.data[n] ELSE {}] ELSE v.data
        cleared == longer[d + 1] \ {i % W}
    IN [data |-> [longer EXCEPT ![d + 1] = IF b THEN cleared \cup {i % W} ELSE cleared], len |-> IF i >= v.len THEN i + 1 ELSE v.len]
BitsOf(v) == {(n - 1) * W + b : <<n, b>> \in {<<n, b>> \in (1..Len(v.data)) \X (0..W - 1) : b \in v.data[n]}}

\* query: which vectors, in order. Vector 1 is that of all groups. whole: no component of the query is unknown or dead, otherwise the length is 0
Fresh == [left |-> [i \in 1..Len(query) |-> vecs[query[i]].data], max |-> IF whole THEN Min({vecs[query[i]].len : i \in 1..Len(query)} \cup {vecs[1].len}) ELSE 0,
          index |-> 0, remaining |-> 0, bits |-> {}]
\* taking a word from each, up to the first that has none left
Ended(t) == {i \in 1..Len(t.left) : t.left[i] = <<>>}
Taken(t) == IF Ended(t) = {} THEN {} ELSE 1..Min(Ended(t)) - 1
RECURSIVE Call(_), Rest(_)
Call(t) ==
    IF t.remaining = 0 THEN
        IF Ended(t) # {} THEN [res |-> -1, it |-> [t EXCEPT !.left = [i \in 1..Len(t.left) |-> IF i \in Taken(t) THEN Tail(t.left[i]) ELSE t.left[i]]]]
        ELSE LET word == {b \in 0..W - 1 : \A i \in 1..Len(t.left) : b \in Head(t.left[i])}
                 u == [t EXCEPT !.left = [i \in 1..Len(t.left) |-> Tail(t.left[i])], !.remaining = W, !.bits = word]
             IN Rest(u)
    ELSE Rest(t)
Rest(t) ==
    IF t.bits = {} THEN Call([t EXCEPT !.index = t.index + t.remaining, !.remaining = 0])
    ELSE LET zeros == Min(t.bits)
             u == [t EXCEPT !.remaining = t.remaining - (zeros + 1), !.bits = {b - zeros - 1 : b \in t.bits \ {zeros}}, !.index = t.index + zeros + 1]
         IN IF u.index > t.max THEN [res |-> -1, it |-> [u EXCEPT !.bits = {}, !.left = [u.left EXCEPT ![1] = <<>>]]]
            ELSE [res |-> u.index - 1, it |-> u]

Queries == {q \in UNION {[1..k -> 1..3] : k \in 1..3} : Cardinality({q[i] : i \in 1..Len(q)}) = Len(q) \/ Len(q) < 3}
Init == \E n \in 0..MaxGroups :
          /\ \E a, b \in Vectors(n) : vecs = <<Vec(0..n - 1, n), a, b>>
          /\ query \in Queries /\ whole \in BOOLEAN
          /\ it = Fresh /\ out = <<>> /\ over = 0
Next == /\ over < 3
        /\ LET c == Call(it) IN
           /\ it' = c.it
           /\ out' = IF c.res >= 0 THEN Append(out, c.res) ELSE out
           /\ over' = IF c.res < 0 THEN over + 1 ELSE over
        /\ UNCHANGED <<vecs, query, whole>>
Spec == Init /\ [][Next]_bvars

Both == {g \in 0..MaxGroups : whole /\ \A i \in 1..Len(query) : g \in BitsOf(vecs[query[i]])}
\* so far: the first of the groups that are in all of them, in order
Exact == /\ \A i \in 1..Len(out) : out[i] \in Both
         /\ \A i, j \in 1..Len(out) : i < j => out[i] < out[j]
         /\ \A g \in Both : Len(out) > 0 /\ g < out[Len(out)] => \E i \in 1..Len(out) : out[i] = g
Complete == over > 0 => {out[i] : i \in 1..Len(out)} = Both
Fused == [][over > 0 => out' = out]_bvars
\* and setting a bit does to the set what it should, whatever else was set before
Setting == \A v \in {2, 3} : \A i \in 0..MaxGroups : \A b \in BOOLEAN :
             /\ BitsOf(SetBit(vecs[v], i, b)) = IF b THEN BitsOf(vecs[v]) \cup {i} ELSE BitsOf(vecs[v]) \ {i}
             /\ SetBit(vecs[v], i, b).len >= vecs[v].len
SetsRight == Len(out) = 0 /\ over = 0 /\ Len(query) = 1 => Setting
=============================================================================
