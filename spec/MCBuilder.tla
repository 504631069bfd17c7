------------------------------ MODULE MCBuilder ------------------------------
(* The builder over a few components, printed edge by edge so that every one of them is replayed into the real code. *)
EXTENDS Builder, TLC, Json
CONSTANT MaxGroups
Sizes3 == <<2, 0, 1>>
Sizes4 == <<1, 4, 0, 2>>
VARIABLE last
mvars == <<vars, last>>
Rec(op, c) == last' = [op |-> op, c |-> c]
RECURSIVE Joined(_)
Joined(n) == ToString(Sizes[n]) \o (IF n < Len(Sizes) THEN "," \o Joined(n + 1) ELSE "")
Text == Joined(1)
MInit == Init /\ last = [op |-> "init", c |-> 0]
MNext == \/ \E h \in Hints : Start(h) /\ Rec("start", h)
         \/ \E c \in Comps : (With(c) /\ Rec("with", c)) \/ (Refuse(c) /\ Rec("refuse", c))
         \/ Build /\ Rec("build", 0)
         \/ Abandon /\ Rec("abandon", 0)
MSpec == MInit /\ [][MNext]_mvars
ASSUME PrintT("SIZES " \o Text)
Few == Cardinality(groups) <= MaxGroups
State == <<cur.cap, cur.ids, reuse, groups>>
View == <<State, done>>
Emit == PrintT("EDGE " \o ToJson([s |-> State, o |-> last', d |-> State']))
=============================================================================
