----------------------------- MODULE MCArcheTape ----------------------------
(***************************************************************************)
(* ArcheTape in small worlds: every step is the step of Ecs it stands for, *)
(* operations are refused exactly when Ecs refuses them, queries over the  *)
(* structures answer what Ecs says. With Emit, every edge of the graph is  *)
(* printed, to be replayed into the real world.                            *)
(***************************************************************************)
EXTENDS ArcheTape, Json, SequencesExt
CONSTANTS MaxSlots, MaxGen, MaxArchs, MaxComps
VARIABLES w, last, issued, slot, ent, desc, types, peak
mvars == <<w, last, issued, slot, ent, desc, types, peak>>

\* the world as its users see it: the variables of Ecs are functions of w (kept as variables so that TLC works them out once)
EntOf(v) == [e \in Entities(v) |-> RowVals(v, e)]
DescOf(v) == [e \in Entities(v) |-> LET k == Meta(v, e).k IN [k |-> k, dr |-> k \in Kinds]]
E == INSTANCE Ecs WITH DropKinds <- Kinds, ZeroKinds <- {}

Max2(a, b) == IF a >= b THEN a ELSE b
Rec(op, a, b, ks, cs, R, id) == last' = [op |-> op, a |-> a, b |-> b, ks |-> ks, cs |-> cs, R |-> R, id |-> id]
\* the types among ks that get an id now
News(v, ks) == {<<k, v.types[k], SlotOf(v.types[k])>> : k \in {x \in Members(ks) : ~Known(w, x)}}
Ids(R) == {r[2] : r \in R}
Step(v, R, more, extra) == /\ w' = v
                           /\ Len(v.gens) <= MaxSlots /\ \A s \in 1..Len(v.gens) : v.gens[s].gen <= MaxGen
                           /\ Len(v.archs) <= MaxArchs
                           /\ issued' = issued \cup Ids(R) \cup more
                           /\ slot' = [i \in issued' |-> SlotOf(i)] /\ ent' = EntOf(v) /\ desc' = DescOf(v) /\ types' = v.types
                           /\ peak' = Max2(peak, Cardinality(Entities(w)) + Cardinality(R) + extra)

KindSeqs == {<<>>} \cup {<<k>> : k \in Kinds} \cup ({<<j, k>> : j \in Kinds, k \in Kinds} \ {<<k, k>> : k \in Kinds})
DoReg(k) == LET v == TypeOf(w, k)[1] IN Step(v, News(v, <<k>>), {}, 0) /\ Rec("reg", k, 0, <<>>, <<>>, News(v, <<k>>), 0)
SetSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
DoBuild(ks, S) ==
    LET cs == SetSeq(S)
        e == NextId(w)
        v == BuildEnt(w, ks, cs, e)
    IN /\ BuildOk(w, cs) /\ \A k \in Members(ks) : Known(w, k) => w.types[k] \notin S
       /\ Len(ks) + Len(cs) <= MaxComps
       /\ Step(v, News(v, ks), {e}, 1) /\ Rec("build", 0, 0, ks, cs, News(v, ks), e)
DoAbandon(ks) == LET v == AbandonEnt(w, ks) IN Step(v, News(v, ks), {}, 1) /\ Rec("abandon", 0, 0, ks, <<>>, News(v, ks), 0)
DoDespawn(e) == Step(DespawnEnt(w, e), {}, {}, 0) /\ Rec("despawn", e, 0, <<>>, <<>>, {}, 0)
DoAdd(e, c) == /\ AddOk(w, e, c) /\ Cardinality(CompsOf(w, e)) < MaxComps
               /\ Step(AddComp(w, e, c, e), {}, {}, 0) /\ Rec("add", e, c, <<>>, <<>>, {}, 0)
DoRemove(e, c) == RemoveOk(w, e, c) /\ Step(RemoveComp(w, e, c), {}, {}, 0) /\ Rec("rem", e, c, <<>>, <<>>, {}, 0)

Init == w = Empty /\ E!Init /\ last = [op |-> "init", a |-> 0, b |-> 0, ks |-> <<>>, cs |-> <<>>, R |-> {}, id |-> 0]
Next == \/ \E k \in Kinds : DoReg(k)
        \/ \E ks \in KindSeqs : DoAbandon(ks) \/ \E S \in {X \in SUBSET Entities(w) : Cardinality(X) <= MaxComps} : DoBuild(ks, S)
        \/ \E e \in Entities(w) : DoDespawn(e) \/ \E c \in Entities(w) : DoAdd(e, c) \/ DoRemove(e, c)
Spec == Init /\ [][Next]_mvars

\* every step is the step of Ecs that has its name
Parts(o) == [i \in 1..(Len(o.ks) + Len(o.cs)) |-> IF i <= Len(o.ks) THEN <<"T", o.ks[i], o.id>> ELSE <<"V", o.cs[i - Len(o.ks)], o.id>>]
StepOf(o) == CASE o.op = "reg" -> E!Register(o.R)
               [] o.op = "build" -> E!Build(o.R, o.id, SlotOf(o.id), E!Unit, Parts(o))
               [] o.op = "abandon" -> E!Abandon(o.R)
               [] o.op = "despawn" -> E!Despawn(o.a)
               [] o.op = "add" -> E!Add({}, o.a, o.b, o.a)
               [] o.op = "rem" -> E!Remove(o.a, o.b)
Refines == [][StepOf(last')]_mvars
\* what is refused is refused on both levels
GuardsAgree == \A e \in issued : /\ IsAlive(w, e) <=> e \in E!Alive
                                 /\ \A c \in issued : /\ AddOk(w, e, c) <=> E!AddOk({}, e, c)
                                                      /\ RemoveOk(w, e, c) <=> E!RemoveOk(e, c)
Cols == LET C == Entities(w) IN {<<0 - 1>>} \cup {<<c, 0 - 1>> : c \in C} \cup {<<0 - 1, b, c>> : b \in C, c \in C} \cup {<<c>> : c \in C}
QueriesExact == \A cols \in Cols : QuerySafe(w, cols) /\ E!RowsExact(cols, QueryRows(w, cols))
StructuresSound == Sound(w)
EcsInv == E!Inv /\ E!SlotsBounded /\ E!SlotsExclusive
SlotsFit == Len(w.gens) <= peak
\* C15 in both directions
Grouped == \A a, b \in Entities(w) : (Meta(w, a).arch = Meta(w, b).arch) <=> (CompsOf(w, a) = CompsOf(w, b))

View == w
CONSTANT MaxLevel
Shallow == TLCGet("level") < MaxLevel
\* printed for the replay: what tells states apart, the operation, and where every entity is afterwards
Where == {<<e, Meta(w, e).arch - 1, Meta(w, e).row - 1>> : e \in Entities(w)}
Sorted(S) == SetToSortSeq(S, <)
Pairs(f) == LET d == Sorted(DOMAIN f) IN [i \in 1..Len(d) |-> <<d[i], f[d[i]]>>]
Key(v) == <<[s \in 1..Len(v.gens) |-> <<v.gens[s].alive, v.gens[s].gen, v.metas[s].arch, v.metas[s].row, v.metas[s].k, Sorted(v.bits[s])>>], v.free, Pairs(v.types),
            [i \in 1..Len(v.archs) |-> LET a == v.archs[i] IN <<Sorted(a.comps), a.ents, Pairs(a.cols), a.cache, Pairs(a.look)>>]>>
Emit == Shallow => PrintT("EDGE " \o ToJson([s |-> Key(w), o |-> last' @@ [at |-> Where'], d |-> Key(w')]))
=============================================================================
