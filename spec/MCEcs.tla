-------------------------------- MODULE MCEcs -------------------------------
(***************************************************************************)
(* Ecs in small worlds: the guarantees that C01-C16 put in words hold of   *)
(* every behaviour of the contract itself, and the two abstractions used   *)
(* to judge large worlds (counts by component set in BulkTrace, sets of    *)
(* components as masks in WideTrace) follow every one of its steps.        *)
(***************************************************************************)
EXTENDS Ecs
CONSTANTS MaxIds, Vals,
          Plain     \* only kinds 1 and 2 are components and neither is despawned, as in BulkTrace
VARIABLES net,      \* values with a destructor handed to the world so far less those destroyed, by kind
          last
mvars == <<issued, slot, ent, desc, types, peak, net, last>>

\* ids and slots as the code picks them: the next number, the lowest free slot
Low(S) == CHOOSE s \in 0..Cardinality(S) : s \notin S /\ \A t \in 0..(s - 1) : t \in S
Busy == {slot[e] : e \in Alive}
\* what the kinds in ks are registered as when n ids and the slots S are taken
Regs(ks, n, S) ==
    LET New == ks \ DOMAIN types
        Before(k) == {j \in New : j < k}
        s1 == Low(S)
        SlotOf(k) == IF Before(k) = {} THEN s1 ELSE Low(S \cup {s1})
    IN {<<k, n + Cardinality(Before(k)) + 1, SlotOf(k)>> : k \in New} \cup {<<k, types[k], slot[types[k]]>> : k \in ks \cap DOMAIN types}
N == Cardinality(issued)
Total(bag, k) == LET B == {x \in bag : x[1] = k} IN IF B = {} THEN 0
                 ELSE LET Sum[S \in SUBSET B] == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[3] + Sum[S \ {x}] IN Sum[B]
Moved(given, bag) == net' = [k \in DropKinds |-> net[k] + given[k] - Total(bag, k)]
Nothing == [k \in DropKinds |-> 0]
One(d) == [k \in DropKinds |-> IF d.dr /\ d.k = k THEN 1 ELSE 0]
Rec(op, a, b) == last' = [op |-> op, a |-> a, b |-> b]

SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
Parts(ks, cs, v) == LET a == SeqOf(ks) b == SeqOf(cs) IN
    [i \in 1..(Len(a) + Len(b)) |-> IF i <= Len(a) THEN <<"T", a[i], v>>
                                    ELSE LET c == b[i - Len(a)] IN IF Dataless(c) THEN <<"U", c, 0>> ELSE <<"V", c, v>>]
\* values the parts bring along
Brought(parts, n) == [k \in DropKinds |-> Total(AbandonLost(parts, n), k)]

Usable == IF Plain THEN {} ELSE {c \in Alive : \A k \in DOMAIN types : types[k] # c}
DoReg(k) == LET R == Regs({k}, N, Busy) IN Register(R) /\ Moved(Nothing, {}) /\ Rec("reg", k, 0)
DoBuild(ks, cs, v, d) ==
    LET s == Low(Busy)
        R == Regs(ks, N + 1, Busy \cup {s})
        P == Parts(ks, cs, v)
    IN /\ Build(R, N + 1, s, d, P) /\ Moved(Brought(P, Len(P)), {}) /\ Rec("build", N + 1, 0)
\* given up, with all parts but perhaps the last
DoAbandon(ks, cs, v) ==
    LET R == Regs(ks, N, Busy \cup {Low(Busy)})
        P == Parts(ks, cs, v)
    IN \E n \in {Len(P), IF P = <<>> THEN 0 ELSE Len(P) - 1} :
         Abandon(R) /\ Moved(Brought(P, n), AbandonLost(P, n)) /\ Rec("abandon", 0, 0)
DoDespawn(e) == (Plain => \A k \in DOMAIN types : types[k] # e) /\ Despawn(e) /\ Moved(Nothing, DespawnLost(e)) /\ Rec("despawn", e, 0)
DoAdd(e, k, v) == LET R == Regs({k}, N, Busy) IN Add(R, e, IdOf(R, k), v) /\ Moved(One(TypeDesc(k)), {}) /\ Rec("add", e, k)
DoAddD(e, c, v) == Add({}, e, c, v) /\ Moved(One(desc[c]), {}) /\ Rec("addd", e, c)
DoRemove(e, c) == Remove(e, c) /\ Moved(Nothing, RemoveLost(e, c)) /\ Rec("rem", e, c)
\* assigning a value destroys the old one
DoWrite(e, c, v) == Write(e, c, v) /\ Moved(One(desc[c]), Destroyed({<<e, c>>})) /\ Rec("write", e, c)

Descs == {Unit} \cup {TypeDesc(k) : k \in IF Plain THEN {} ELSE DropKinds}
Small(S) == {x \in SUBSET S : Cardinality(x) <= 1}
MInit == Init /\ net = Nothing /\ last = [op |-> "init", a |-> 0, b |-> 0]
MNext == /\ N < MaxIds
         /\ \/ \E k \in Kinds : DoReg(k)
            \/ \E ks \in SUBSET Kinds, cs \in Small(Usable), v \in Vals : (\E d \in Descs : DoBuild(ks, cs, v, d)) \/ DoAbandon(ks, cs, v)
            \/ \E e \in Alive : \/ DoDespawn(e)
                                \/ \E k \in Kinds, v \in Vals : DoAdd(e, k, v)
                                \/ \E c \in Usable, v \in Vals : DoAddD(e, c, v)
                                \/ \E c \in Comps(e) : DoRemove(e, c) \/ \E v \in Vals : DoWrite(e, c, v)
MSpec == MInit /\ [][MNext]_mvars

\* what was done last plays no part in what can be done next
View == <<issued, slot, ent, desc, types, peak, net>>
\* C01, C16 (see Ecs), C03/C13/C12 (Inv)
Sound == Inv /\ SlotsBounded /\ SlotsExclusive
\* C09: given and not destroyed is what entities hold
Conserved == \A k \in DropKinds : net[k] = Cardinality({x \in Alive \X issued : x[2] \in Comps(x[1]) /\ desc[x[2]] = [k |-> k, dr |-> TRUE]})
\* C03, C04, C13, C14: what a step does not name it does not touch
Isolated == [][\A e \in Alive \cap DOMAIN ent' : \A c \in (Comps(e) \cup DOMAIN ent'[e]) :
                  \/ last'.op = "despawn" /\ c = last'.a
                  \/ last'.op \in {"add", "addd", "rem", "write"} /\ last'.a = e
                  \/ c \in Comps(e) /\ c \in DOMAIN ent'[e] /\ ent[e][c] = ent'[e][c]]_mvars
OnlyOne == [][\A e \in Alive \cap DOMAIN ent' : last'.op \in {"addd", "rem", "write"} /\ last'.a = e =>
                  \A c \in (Comps(e) \cup DOMAIN ent'[e]) \ {last'.b} : c \in Comps(e) /\ c \in DOMAIN ent'[e] /\ ent[e][c] = ent'[e][c]]_mvars
\* C02: ids not alive appear nowhere
Inert == /\ \A e \in Alive : Comps(e) \cap (issued \ Alive) = {}
         /\ \A i \in issued \ Alive : ~DespawnOk(i) /\ \A e \in Alive : ~AddOk({}, i, e) /\ ~AddOk({}, e, i) /\ ~RemoveOk(i, e) /\ ~RemoveOk(e, i)
\* C05-C07: a query over no component at all sees everybody, and each entity is a match of exactly the queries over parts of its set
Matches == \A c \in issued : Match(<<0 - 1, c>>) = Holders(c)

(* ---- the abstraction of BulkTrace: how many entities have each set of the kinds 1 and 2 ---- *)
Bit(T, k, cs) == IF k \in DOMAIN T /\ T[k] \in cs THEN k ELSE 0
MaskOf(T, cs) == Bit(T, 1, cs) + Bit(T, 2, cs)
Count(T, E) == [m \in 0..3 |-> Cardinality({e \in DOMAIN E : MaskOf(T, DOMAIN E[e]) = m})]
Plus(f, m, n) == [f EXCEPT ![m] = @ + n]
NewTypes == Cardinality(DOMAIN types' \ DOMAIN types)
Counted == [][LET c == Count(types, ent) d == Count(types', ent') e == last'.a
                  m == IF e \in Alive THEN MaskOf(types, Comps(e)) ELSE 0
                  q == IF e \in DOMAIN ent' THEN MaskOf(types', DOMAIN ent'[e]) ELSE 0
                  c0 == Plus(c, 0, NewTypes)
              IN /\ CASE last'.op \in {"reg", "abandon", "write"} -> d = c0
                      [] last'.op = "build" -> d = Plus(c0, q, 1)
                      [] last'.op = "despawn" -> d = Plus(c0, m, 0 - 1)
                      [] OTHER -> d = Plus(Plus(c0, m, 0 - 1), q, 1)
                 /\ last'.op = "add" => q = m + last'.b
                 /\ last'.op = "rem" => q < m
                 /\ peak' >= d[0] + d[1] + d[2] + d[3]
                 /\ net'[1] = d[1] + d[3]]_mvars
CountedQueries == LET c == Count(types, ent) Q(k) == IF k \in DOMAIN types THEN Cardinality(Match(<<types[k]>>)) ELSE 0
                  IN /\ Q(1) = c[1] + c[3] /\ Q(2) = c[2] + c[3]
                     /\ DOMAIN types = {1, 2} => Cardinality(Match(<<types[1], types[2]>>)) = c[3]
=============================================================================
