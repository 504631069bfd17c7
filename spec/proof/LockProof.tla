------------------------------ MODULE LockProof -----------------------------
(* C10 without bounds: queries that exist together do not conflict, whatever they name and however many there are.       *)
(* QueryLocksSafe checks that QueryLocks implements LockSteps.                                                            *)
EXTENDS LockSteps, TLAPS

TypeOK == /\ asked \in [Actors -> Queries \cup {None}]
          /\ got \in [Actors -> Nat]
          /\ left \in [Actors -> Nat \cup {-1}]
          /\ \A a \in Actors : asked[a] = None => got[a] = 0 /\ left[a] = -1
          /\ \A a \in Actors : asked[a] # None => got[a] <= Len(asked[a])
Apart(a, b) == \A i \in Has(a) : \A j \in Has(b) : Comp(a, i) = Comp(b, j) => Mode(a, i) = "R" /\ Mode(b, j) = "R"
Inv == TypeOK /\ \A a, b \in Actors : a # b => Apart(a, b)

LEMMA Lengths == \A q \in Queries : Len(q) \in Nat
BY Known

THEOREM Invariant == Spec => []Inv
<1>1. Init => Inv
  BY DEF Init, Inv, TypeOK, Apart, Has
<1>2. Inv /\ [Next]_lvars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_lvars PROVE Inv'
    OBVIOUS
  <2> USE Lengths, Known
  <2>1. ASSUME NEW a \in Actors, Start(a) PROVE Inv'
    <3>1. TypeOK'
      BY <2>1 DEF Inv, TypeOK, Start
    <3>2. got[a] = 0 /\ left[a] = -1
      BY <2>1 DEF Inv, TypeOK, Start
    <3>3. Has(a)' = {}
      BY <2>1, <3>2 DEF Inv, TypeOK, Start, Has, First
    <3>4. \A b \in Actors : b # a => Has(b)' = Has(b) /\ asked'[b] = asked[b]
      BY <2>1 DEF Inv, TypeOK, Start, Has, First
    <3> QED
      BY <3>1, <3>3, <3>4 DEF Inv, Apart, Comp, Mode
  <2>2. ASSUME NEW a \in Actors, Take(a) PROVE Inv'
    <3>1. TypeOK'
      BY <2>2 DEF Inv, TypeOK, Take
    <3>2. Has(a)' = Has(a) \cup {got[a] + 1}
      BY <2>2 DEF Inv, TypeOK, Take, Has, First
    <3>3. \A b \in Actors : b # a => Has(b)' = Has(b)
      BY <2>2 DEF Inv, TypeOK, Take, Has, First
    <3>4. asked' = asked
      BY <2>2 DEF Take
    <3>5. Free(a, got[a] + 1)
      BY <2>2 DEF Take
    <3>6. \A c, d \in Actors : c # d => Apart(c, d)
      BY DEF Inv
    <3>7. \A b \in Actors : b # a => Apart(a, b)' /\ Apart(b, a)'
      BY <3>2, <3>3, <3>4, <3>5, <3>6 DEF Apart, Free, Comp, Mode
    <3>8. \A c, d \in Actors : c # d /\ c # a /\ d # a => Apart(c, d)'
      BY <3>3, <3>4, <3>6 DEF Apart, Comp, Mode
    <3> QED
      BY <3>1, <3>7, <3>8 DEF Inv
  <2>3. ASSUME NEW a \in Actors, Drop(a) \/ Give(a) PROVE Inv'
    <3>1. TypeOK'
      BY <2>3 DEF Inv, TypeOK, Drop, Give, Exists
    <3>2. \A b \in Actors : Has(b)' \subseteq Has(b)
      BY <2>3 DEF Inv, TypeOK, Drop, Give, Exists, Has, First
    <3>3. asked' = asked
      BY <2>3 DEF Drop, Give
    <3> QED
      BY <3>1, <3>2, <3>3 DEF Inv, Apart, Comp, Mode
  <2>4. ASSUME NEW a \in Actors, Done(a) PROVE Inv'
    <3>1. TypeOK'
      BY <2>4 DEF Inv, TypeOK, Done
    <3>2. Has(a)' = {}
      BY <2>4 DEF Inv, TypeOK, Done, Has
    <3>3. \A b \in Actors : b # a => Has(b)' = Has(b) /\ asked'[b] = asked[b]
      BY <2>4 DEF Inv, TypeOK, Done, Has, First
    <3> QED
      BY <3>1, <3>2, <3>3 DEF Inv, Apart, Comp, Mode
  <2>5. CASE UNCHANGED lvars
    BY <2>5 DEF lvars, Inv, TypeOK, Apart, Has, First, Comp, Mode
  <2> QED
    BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec

THEOREM Exclusion == Spec => []Excluded
<1>1. Inv => Excluded
  <2> SUFFICES ASSUME Inv, NEW a \in Actors, NEW b \in Actors, a # b, Exists(a), Exists(b),
                      NEW i \in 1..Len(asked[a]), NEW j \in 1..Len(asked[b]), Comp(a, i) = Comp(b, j)
               PROVE  Mode(a, i) = "R" /\ Mode(b, j) = "R"
    BY DEF Excluded
  <2>1. i \in Has(a) /\ j \in Has(b)
    BY DEF Has, First, Exists, Inv, TypeOK
  <2> QED
    BY <2>1 DEF Inv, Apart
<1> QED
  BY <1>1, Invariant, PTL

THEOREM Unhindered == \A a \in Actors : NotHindered(a)
BY DEF NotHindered, Free
=============================================================================
