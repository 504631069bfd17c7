---------------------------- MODULE SimArcheTape ----------------------------
(***************************************************************************)
(* Long behaviours of ArcheTape in larger worlds: Walks chains of Depth    *)
(* steps in which every choice is drawn from a small generator that is     *)
(* part of the state. Checked like MCArcheTape, and printed step by step   *)
(* to be replayed into the code.                                           *)
(***************************************************************************)
EXTENDS MCArcheTape, IOUtils
CONSTANTS Walks, Depth, Alphabet
VARIABLES n, x, walk
svars == <<mvars, n, x, walk>>

Rnd(y) == (y * 25173 + 13849) % 65536
Up(y, k) == (y \div 8) % k
Pick(S, y) == Sorted(S)[Up(y, Cardinality(S)) + 1]
\* up to k members of S
RECURSIVE Some(_, _, _)
Some(S, k, y) == IF k = 0 \/ S = {} THEN {} ELSE LET e == Pick(S, y) IN {e} \cup Some(S \ {e}, k - 1, Rnd(y))
Half(S, y) == LET q == Sorted(S) IN {q[i] : i \in {j \in 1..Len(q) : (y \div (2 ^ (j + 2))) % 3 = 0}}

\* components are mostly taken from the ids with the lowest slots, so that groups are shared
Pool == LET A == {e \in Entities(w) : SlotOf(e) < Alphabet} IN IF A = {} THEN Entities(w) ELSE A
KindsOf(y) == LET K == Half(Kinds, y) IN IF Up(Rnd(y), 2) = 0 THEN Sorted(K) ELSE SetToSortSeq(K, >)
Room == Cardinality(Entities(w)) < MaxSlots - Cardinality(Kinds) - 1
Drawn(y1, y2, y3, y4) ==
    LET op == Up(y1, 16)
        E0 == Entities(w)
        C == IF Up(y2, 8) = 0 THEN E0 ELSE Pool
        ks == KindsOf(y3)
        S == Some(C \ {w.types[k] : k \in DOMAIN w.types \cap Members(ks)}, Up(y4, 4), y2)
        build == DoBuild(ks, IF Cardinality(S) + Len(ks) > MaxComps THEN {} ELSE S)
        idle == UNCHANGED mvars
    IN IF E0 = {} THEN build
       ELSE CASE op <= 2 -> IF Room THEN build ELSE DoDespawn(Pick(E0, y2))
              [] op = 3 -> IF Room THEN DoAbandon(ks) ELSE DoDespawn(Pick(E0, y3))
              [] op = 4 -> IF Room THEN DoReg(Pick(Kinds, y3)) ELSE DoDespawn(Pick(Pool, y3))
              [] op \in {5, 6} -> DoDespawn(Pick(IF Up(y3, 3) = 0 THEN Pool ELSE E0, y2))
              [] OTHER -> LET e == Pick(E0, y2)
                              A == {c \in C : c \notin CompsOf(w, e)}
                              R == CompsOf(w, e)
                          IN IF R # {} /\ (op >= 13 \/ A = {} \/ Cardinality(R) >= MaxComps) THEN DoRemove(e, Pick(R, y3))
                             ELSE IF A # {} THEN DoAdd(e, Pick(A, y3)) ELSE build

Seed0 == (atoi(IOEnv.SEED) * 7919) % 65536
SInit == Init /\ n = 0 /\ walk \in 1..Walks /\ x = Rnd(Rnd((Seed0 + walk * 4099) % 65536))
SNext == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED walk
         /\ LET y1 == Rnd(x) y2 == Rnd(y1) y3 == Rnd(y2) y4 == Rnd(y3) IN x' = Rnd(y4 + 1) /\ Drawn(y1, y2, y3, y4)
SSpec == SInit /\ [][SNext]_svars
SView == <<walk, n>>
SEmit == PrintT("WALK " \o ToJson([n |-> n, walk |-> walk, o |-> last' @@ [at |-> Where']]))
=============================================================================
