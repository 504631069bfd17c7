--------------------------- MODULE MCUntypedVec -----------------------------
(* The state graph of UntypedVec with at most M distinguishable elements, printed edge by edge so that every one of   *)
(* them is replayed into the real code. Ownership is checked here by counting: an element is in at most one place.    *)
EXTENDS UntypedVec, TLC, Json
CONSTANT M
VARIABLE last     \* the operation just done, its result and what it destroyed; not part of the state (see View)
mvars == <<vec, last>>
View == vec

Held(v) == {vec[v][i] : i \in 1..Len(vec[v])}
Unused == (1..M) \ (Held(1) \cup Held(2))
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Rec(op, v, i, t, res, lost) == last' = [op |-> op, v |-> v, i |-> i, t |-> t, res |-> res, lost |-> lost]
Idx(v) == 0..(Len(vec[v]) + 1)     \* two of them out of range

Push(v) == Unused # {} /\ LET t == Least(Unused) IN PushNext(v, t) /\ Rec("push", v, 0, t, "ok", <<>>)
Pop(v) == IF PopOk(v) THEN PopNext(v) /\ Rec("pop", v, 0, 0, "true", PopLost(v)) ELSE UNCHANGED vec /\ Rec("pop", v, 0, 0, "false", <<>>)
Put(v, i) == Unused # {} /\ In(v, i) /\ LET t == Least(Unused) IN PutNext(v, i, t) /\ Rec("put", v, i, t, "ok", <<>>)
Remove(v, i) == IF RemoveOk(v, i) THEN RemoveNext(v, i) /\ Rec("remove", v, i, 0, "ok", RemoveLost(v, i))
                ELSE UNCHANGED vec /\ Rec("remove", v, i, 0, "panic", <<>>)
Move(v, i) == IF MoveOk(v, i) THEN MoveNext(v, i) /\ Rec("move", v, i, 0, "ok", <<>>)
              ELSE UNCHANGED vec /\ Rec("move", v, i, 0, "panic", <<>>)
Drop(v) == DropNext(v) /\ Rec("drop", v, 0, 0, "ok", DropLost(v))
Misfit(v, i) == ~MisfitOk(v, i) /\ In(v, i) /\ UNCHANGED vec /\ Rec("misfit", v, i, 0, "panic", <<>>)
Grow(v) == UNCHANGED vec /\ Rec("grow", v, 0, 0, "sized", <<>>)

MInit == Init /\ last = [op |-> "init", v |-> 0, i |-> 0, t |-> 0, res |-> "ok", lost |-> <<>>]
MNext == \E v \in Vecs : \/ Push(v) \/ Pop(v) \/ Drop(v) \/ Grow(v)
                         \/ \E i \in Idx(v) : Put(v, i) \/ Misfit(v, i) \/ Remove(v, i) \/ Move(v, i)
MSpec == MInit /\ [][MNext]_mvars

\* C20: every element is in exactly one place, and what is destroyed is nowhere any more
Distinct == \A v, w \in Vecs : \A i \in 1..Len(vec[v]), j \in 1..Len(vec[w]) : vec[v][i] = vec[w][j] => v = w /\ i = j
Conserved == [][LET before == Held(1) \cup Held(2)
                    after == Held(1)' \cup Held(2)'
                    lost == {last'.lost[i] : i \in 1..Len(last'.lost)}
                IN /\ lost \cap after = {}
                   /\ last'.op \notin {"push", "put"} => before = after \cup lost
                   /\ last'.op = "push" => after = before \cup {last'.t} /\ lost = {}]_mvars
Emit == PrintT("EDGE " \o ToJson([s |-> vec, o |-> last', d |-> vec']))
=============================================================================
