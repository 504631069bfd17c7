------------------------------- MODULE Unwind ------------------------------
(***************************************************************************)
(* The steps in which an entity leaves a group or loses a component, with  *)
(* destructors any of which may panic (C21). A group is a list of entities *)
(* and a column of values per component; every column must always be as    *)
(* long as the list, row by row the values of that entity. When a          *)
(* destructor panics the rest of the operation is not reached, except what *)
(* a guard does while unwinding. Guarded and Last choose how the code goes *)
(* about it; only TRUE and TRUE, as it does, are sound.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS E, C,     \* entities, components
          Guarded,  \* the rest of a row's values go when one's destructor panics
          Last      \* values are destroyed when all else is done
VARIABLES ents,     \* group -> its entities, row by row
          cols,     \* group -> component -> its values, row by row
          at,       \* entity -> group and row
          todo,     \* the steps left of the operation under way
          panicking, had, gone
vars == <<ents, cols, at, todo, panicking, had, gone>>
Groups == SUBSET C
Range(s) == {s[i] : i \in 1..Len(s)}
Value(e, c) == <<e, c>>
SwapRemove(s, i) == SubSeq([s EXCEPT ![i] = s[Len(s)]], 1, Len(s) - 1)
SeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]

Init == /\ ents = [g \in Groups |-> <<>>] /\ cols = [g \in Groups |-> [c \in g |-> <<>>]]
        /\ at = [e \in {} |-> <<{}, 0>>] /\ todo = <<>> /\ panicking = FALSE /\ had = {} /\ gone = [v \in E \X C |-> 0]

Idle == todo = <<>>
Fresh == {e \in E : e \notin DOMAIN at /\ \A c \in C : Value(e, c) \notin had /\ gone[Value(e, c)] = 0}
\* every entity is built once, with a component at least, so that it is known to have been
Build(e, g) ==
    /\ Idle /\ e \in Fresh /\ g # {}
    /\ ents' = [ents EXCEPT ![g] = Append(@, e)]
    /\ cols' = [cols EXCEPT ![g] = [c \in g |-> Append(@[c], Value(e, c))]]
    /\ at' = (e :> <<g, Len(ents[g]) + 1>>) @@ at
    /\ had' = had \cup {Value(e, c) : c \in g}
    /\ panicking' = FALSE /\ UNCHANGED <<todo, gone>>

\* op: "list" the entity leaves the list of its group (and joins that of "to" unless it is despawned), "move" a value moves
\* along, "drop" a value is destroyed
Drops(g, i, order) == [n \in 1..Len(order) |-> [op |-> "drop", g |-> g, i |-> i, c |-> order[n]]]
Despawn(e) ==
    /\ Idle /\ e \in DOMAIN at
    /\ LET g == at[e][1] i == at[e][2]
           list == <<[op |-> "list", g |-> g, i |-> i, to |-> <<>>]>>
           drops == Drops(g, i, SeqOf(g))
       IN todo' = IF Last THEN list \o drops ELSE drops \o list
    /\ panicking' = FALSE /\ UNCHANGED <<ents, cols, at, had, gone>>
Remove(e, c) ==
    /\ Idle /\ e \in DOMAIN at /\ c \in at[e][1]
    /\ LET g == at[e][1] i == at[e][2] h == g \ {c}
           rest == SeqOf(h)
           moves == [n \in 1..Len(rest) |-> [op |-> "move", g |-> g, i |-> i, c |-> rest[n], to |-> h]]
           list == <<[op |-> "list", g |-> g, i |-> i, to |-> <<h>>]>>
           drop == Drops(g, i, <<c>>)
       IN todo' = IF Last THEN moves \o list \o drop ELSE moves \o drop \o list
    /\ panicking' = FALSE /\ UNCHANGED <<ents, cols, at, had, gone>>

Step(throws) ==
    /\ ~Idle
    /\ LET s == todo[1] rest == Tail(todo) IN
       \/ /\ s.op = "list" /\ ~throws
          /\ LET e == ents[s.g][s.i]
                 left == SwapRemove(ents[s.g], s.i)
                 h == s.to[1]
             IN /\ ents' = IF s.to = <<>> THEN [ents EXCEPT ![s.g] = left] ELSE [ents EXCEPT ![s.g] = left, ![h] = Append(@, e)]
                /\ at' = LET rows == [x \in DOMAIN at \ {e} |-> IF at[x] = <<s.g, Len(ents[s.g])>> THEN <<s.g, s.i>> ELSE at[x]]
                         IN IF s.to = <<>> THEN rows ELSE (e :> <<h, Len(ents[h]) + 1>>) @@ rows
          /\ todo' = rest /\ UNCHANGED <<cols, panicking, had, gone>>
       \/ /\ s.op = "move" /\ ~throws
          /\ cols' = [cols EXCEPT ![s.g][s.c] = SwapRemove(@, s.i), ![s.to][s.c] = Append(@, cols[s.g][s.c][s.i])]
          /\ todo' = rest /\ UNCHANGED <<ents, at, panicking, had, gone>>
       \/ /\ s.op = "drop" /\ (throws => ~panicking)  \* a second panic ends the process
          /\ cols' = [cols EXCEPT ![s.g][s.c] = SwapRemove(@, s.i)]
          /\ gone' = [gone EXCEPT ![cols[s.g][s.c][s.i]] = @ + 1]
          /\ todo' = IF ~throws THEN rest ELSE IF Guarded THEN SelectSeq(rest, LAMBDA x : x.op = "drop") ELSE <<>>
          /\ panicking' = (panicking \/ throws)
          /\ UNCHANGED <<ents, at, had>>

Next == \/ \E e \in E : \E g \in Groups : Build(e, g)
        \/ \E e \in E : Despawn(e) \/ \E c \in C : Remove(e, c)
        \/ \E t \in BOOLEAN : Step(t)
Spec == Init /\ [][Next]_vars

\* When no operation is under way, however the last one ended
Columns == Idle => \A g \in Groups : \A c \in g : cols[g][c] = [i \in 1..Len(ents[g]) |-> Value(ents[g][i], c)]
Located == Idle => \A g \in Groups : \A i \in 1..Len(ents[g]) : ents[g][i] \in DOMAIN at /\ at[ents[g][i]] = <<g, i>>
Owned == Idle => \A v \in had : gone[v] = IF v[1] \in DOMAIN at /\ v[2] \in at[v[1]][1] THEN 0 ELSE 1
\* and always: no value is destroyed twice
Once == \A v \in had : gone[v] <= 1
\* no state is reached in which a step of the code would be out of bounds
Bounds == ~Idle => LET s == todo[1] IN s.i <= IF s.op = "list" THEN Len(ents[s.g]) ELSE Len(cols[s.g][s.c])
=============================================================================
