----------------------------- MODULE UntypedVec -----------------------------
(***************************************************************************)
(* Two untyped vectors of the same element layout as plain sequences, and   *)
(* which element each operation destroys. Indices count from 0.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE vec                    \* <<first vector, second vector>>
Vecs == {1, 2}
Other(v) == 3 - v
Init == vec = <<<<>>, <<>>>>

In(v, i) == i >= 0 /\ i < Len(vec[v])
Elem(v, i) == vec[v][i + 1]
LastOf(v) == vec[v][Len(vec[v])]
ButLast(s) == SubSeq(s, 1, Len(s) - 1)
\* The sequence without element i, whose place the last element takes
SwapOut(s, i) == ButLast([s EXCEPT ![i + 1] = s[Len(s)]])

PushNext(v, t) == vec' = [vec EXCEPT ![v] = Append(@, t)]
PopOk(v) == vec[v] # <<>>
PopLost(v) == <<LastOf(v)>>
PopNext(v) == vec' = [vec EXCEPT ![v] = ButLast(@)]
PutNext(v, i, t) == vec' = [vec EXCEPT ![v][i + 1] = t]
RemoveOk(v, i) == In(v, i)
RemoveLost(v, i) == <<Elem(v, i)>>
RemoveNext(v, i) == vec' = [vec EXCEPT ![v] = SwapOut(@, i)]
MoveOk(v, i) == In(v, i)
MoveNext(v, i) == vec' = [vec EXCEPT ![v] = SwapOut(@, i), ![Other(v)] = Append(@, Elem(v, i))]
\* moving an element to a vector of another layout, or a view as elements of another layout: nothing happens
MisfitOk(v, i) == FALSE
DropLost(v) == vec[v]
DropNext(v) == vec' = [vec EXCEPT ![v] = <<>>]
=============================================================================
