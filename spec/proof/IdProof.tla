------------------------------- MODULE IdProof ------------------------------
(***************************************************************************)
(* C01 and C02 for the allocator without any bound on slots, generations   *)
(* or histories, proved with TLAPS (tlapm IdProof.tla): an id handed out   *)
(* is new, and an id that died never lives again. MCEntityAlloc checks     *)
(* that EntityAlloc implements IdSteps.                                    *)
(***************************************************************************)
EXTENDS IdSteps, TLAPS

TypeOK == /\ n \in Nat /\ gen \in [1..n -> Nat] /\ used \subseteq 1..n
          /\ log \subseteq (1..n) \X Nat
Inv == /\ TypeOK
       /\ \A i \in log : i[2] <= gen[i[1]]
       /\ \A s \in 1..n : <<s, gen[s]>> \in log

THEOREM Invariant == Spec => []Inv
<1>1. Init => Inv
  BY DEF Init, Inv, TypeOK
<1>2. Inv /\ [Next]_pvars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_pvars PROVE Inv'
    OBVIOUS
  <2> USE DEF Inv, TypeOK
  <2>1. CASE Fresh
    BY <2>1 DEF Fresh
  <2>2. ASSUME NEW s \in 1..n, Reuse(s) PROVE Inv'
    BY <2>2 DEF Reuse
  <2>3. ASSUME NEW i \in log, Free(i) PROVE Inv'
    BY <2>3 DEF Free
  <2>4. CASE UNCHANGED pvars
    BY <2>4 DEF pvars
  <2> QED
    BY <2>1, <2>2, <2>3, <2>4 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec

THEOREM NeverAgain == Spec => [][Unique]_pvars
<1>1. Inv /\ [Next]_pvars => [Unique]_pvars
  <2> SUFFICES ASSUME Inv, Next PROVE log' = log \/ \E i \in (1..n') \X Nat : Hands(i)
    BY DEF Unique
  <2> USE DEF Inv, TypeOK
  <2>1. CASE Fresh
    <3>1. <<n + 1, 0>> \in (1..n') \X Nat /\ <<n + 1, 0>> \notin log
      BY <2>1 DEF Fresh
    <3>2. PICK i \in (1..n') \X Nat : i = <<n + 1, 0>>
      BY <3>1
    <3>3. i[1] = n + 1 /\ i[2] = 0 /\ gen'[n + 1] = 0 /\ n + 1 \in used' /\ log' = log \cup {i}
      BY <2>1, <3>2 DEF Fresh
    <3>4. Hands(i)
      BY <3>1, <3>2, <3>3 DEF Hands, IsLive
    <3> QED
      BY <3>4
  <2>2. ASSUME NEW s \in 1..n, Reuse(s) PROVE \E i \in (1..n') \X Nat : Hands(i)
    <3>1. <<s, gen[s] + 1>> \notin log
      BY <2>2
    <3>2. PICK i \in (1..n') \X Nat : i = <<s, gen[s] + 1>>
      BY <2>2 DEF Reuse
    <3>3. i[1] = s /\ i[2] = gen[s] + 1 /\ gen'[s] = gen[s] + 1 /\ s \in used' /\ log' = log \cup {i}
      BY <2>2, <3>2 DEF Reuse
    <3>4. Hands(i)
      BY <3>1, <3>2, <3>3 DEF Hands, IsLive
    <3> QED
      BY <3>4
  <2>3. ASSUME NEW i \in log, Free(i) PROVE log' = log
    BY <2>3 DEF Free
  <2> QED
    BY <2>1, <2>2, <2>3 DEF Next
<1> QED
  BY <1>1, Invariant, PTL DEF Spec

THEOREM DeadForEver == Spec => [][Stays]_pvars
<1>1. Inv /\ [Next]_pvars => [Stays]_pvars
  <2> SUFFICES ASSUME Inv, Next PROVE Stays
    OBVIOUS
  <2> USE DEF Inv, TypeOK
  <2>1. CASE Fresh
    BY <2>1 DEF Fresh, Stays, IsLive
  <2>2. ASSUME NEW s \in 1..n, Reuse(s) PROVE Stays
    BY <2>2 DEF Reuse, Stays, IsLive
  <2>3. ASSUME NEW i \in log, Free(i) PROVE Stays
    BY <2>3 DEF Free, Stays, IsLive
  <2> QED
    BY <2>1, <2>2, <2>3 DEF Next
<1> QED
  BY <1>1, Invariant, PTL DEF Spec
=============================================================================
