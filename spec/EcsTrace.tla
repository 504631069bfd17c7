------------------------------ MODULE EcsTrace ------------------------------
(***************************************************************************)
(* Is a recorded execution a behaviour of Ecs? One event per public call,  *)
(* with its arguments, result, destroyed values and, for observations, all *)
(* that was seen. Checks are labelled with a family; only the families in  *)
(* the environment variable ON reject the trace, the others are reported.  *)
(* A file holds many executions, each started by a "world" event.          *)
(***************************************************************************)
EXTENDS Ecs, Json, IOUtils

VARIABLE l
tvars == <<vars, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* ON is a comma separated list with a comma at both ends; Families are matched through a table
Families == {"id", "slot", "res", "comps", "val", "iter", "get", "dyn", "cols", "drop", "loc", "type", "align", "ov"}
On == LET given == ndJsonDeserialize(IOEnv.ONFILE)[1].on IN {given[i] : i \in 1..Len(given)}
OnSet == On \* a constant expression: evaluated once

ASSUME OnSet \subseteq Families

Size == <<8, 4, 1, 3, 16, 320, 0, 0, 0, 8, 64, 2, 16, 8, 33, 256, 69632>>
Align == <<8, 4, 1, 1, 16, 8, 1, 1, 32, 8, 64, 2, 16, 4, 1, 128, 4096>>
ASSUME \A k \in Kinds : (Size[k + 1] = 0) <=> (k \in ZeroKinds)

Ev == Trace[l]
\* TRUE, or says what was wrong and is FALSE for the families that count
Chk(f, what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, f, what>>) /\ f \notin OnSet
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1

SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
\* what was destroyed, up to an argument whose refusal may destroy it
DroppedIs(want, opt) ==
    LET got == SetOf(Ev.dropped)
        plus(p) == LET n == IF \E w \in want : w[1] = p[1] /\ w[2] = p[2] THEN (CHOOSE w \in want : w[1] = p[1] /\ w[2] = p[2])[3] ELSE 0
                   IN {w \in want : ~(w[1] = p[1] /\ w[2] = p[2])} \cup {<<p[1], p[2], n + 1>>}
    IN Chk("drop", <<"destroyed", got, "expected", want>>, got = want \/ \E p \in opt : got = plus(p))
Arg(d, t) == IF d.dr THEN {<<d.k, t>>} ELSE {}

Regs == SetOf(Ev.regs)
RegsOk == /\ Chk("type", "a known type kept its id and a new one got its own", RegsStable(Regs) /\ \A r, q \in Regs : r[2] = q[2] => r[1] = q[1])
          /\ Chk("id", "a new type got a new id", RegsFresh(Regs))
\* checked on the state after the step
SlotOk == /\ Chk("slot", <<"slots in use", Cardinality(Slots'), "peak", peak'>>, Cardinality(Slots') <= peak')
          /\ Chk("id", "a slot has one owner", \A r \in NewRegs(Regs) : \A b \in DOMAIN ent' : b # r[2] => slot'[b] # r[3])

TWorld == /\ Is("world")
          /\ issued' = {} /\ slot' = [i \in {} |-> 0] /\ ent' = [i \in {} |-> None] /\ desc' = [i \in {} |-> Unit]
          /\ types' = [k \in {} |-> 0] /\ peak' = 0

TNew ==
    /\ Is("new")
    /\ RegsOk
    /\ LET parts == Ev.parts
           bad == FirstBad(Regs, parts)
           d == [k |-> Ev.md[1], dr |-> Ev.md[2] = 1]
           refused == bad # 0
           lost == IF refused THEN bad - 1 ELSE Len(parts)
           opt == IF refused /\ parts[bad][1] = "T" THEN Arg(TypeDesc(parts[bad][2]), parts[bad][3]) ELSE {}
       IN /\ Chk("res", <<"building was refused at part", bad>>, IF refused THEN Ev.res = "panic" ELSE Returned(Ev.res, "ok", IF Ev.end = "build" THEN {} ELSE AbandonLost(parts, lost)))
          /\ IF Ev.res = "ok" /\ Ev.end = "build"
             THEN /\ Chk("id", "a new entity got a new id", BuildFresh(Regs, Ev.id))
                  /\ DroppedIs({}, {})
                  /\ BuildNext(Regs, Ev.id, Ev.slot, d, parts)
                  /\ Chk("id", "a slot has one owner", \A b \in DOMAIN ent' : b # Ev.id => slot'[b] # Ev.slot)
             ELSE /\ DroppedIs(AbandonLost(parts, lost), opt)
                  /\ AbandonNext(Regs)
    /\ SlotOk

TReg == Is("reg") /\ RegsOk /\ DroppedIs({}, {}) /\ RegisterNext(Regs) /\ SlotOk

TDespawn ==
    /\ Is("despawn")
    /\ Chk("id", <<"despawn, alive is", Ev.e \in Alive>>, IF DespawnOk(Ev.e) THEN Returned(Ev.res, "true", DespawnLost(Ev.e)) ELSE Ev.res = "false")
    /\ IF DespawnOk(Ev.e) THEN DroppedIs(DespawnLost(Ev.e), {}) /\ DespawnNext(Ev.e)
                          ELSE DroppedIs({}, {}) /\ UNCHANGED vars

\* The id of the type an event names, once registered
Named == IdOf(Regs, Ev.k)
TAdd ==
    /\ Is("add") /\ RegsOk
    /\ IF AddOk(Regs, Ev.e, Named)
       THEN /\ Chk("res", "add was carried out", Ev.res = "ok")
            /\ DroppedIs({}, {})
            /\ AddNext(Regs, Ev.e, Named, Ev.t)
       ELSE /\ Chk("res", "add was refused", Ev.res = "panic" \/ Ev.e \notin Alive)
            /\ DroppedIs({}, Arg(TypeDesc(Ev.k), Ev.t))
            /\ RegisterNext(Regs)
    /\ SlotOk

NoRegs == {}
TAddU ==
    /\ Is("addu") /\ DroppedIs({}, {})
    /\ IF AddOk(NoRegs, Ev.e, Ev.c) /\ Dataless(Ev.c)
       THEN Chk("res", "add was carried out", Ev.res = "ok") /\ AddNext(NoRegs, Ev.e, Ev.c, 0)
       ELSE /\ Chk("res", "add was refused", Ev.res = "panic" \/ {Ev.e, Ev.c} \ Alive # {})
            /\ UNCHANGED vars
TAddV ==
    /\ Is("addv") /\ DroppedIs({}, {})
    /\ IF AddOk(NoRegs, Ev.e, Ev.c)
       THEN Chk("res", "add was carried out", Ev.res = "ok") /\ AddNext(NoRegs, Ev.e, Ev.c, Ev.t)
       ELSE /\ Chk("res", "add was refused", Ev.res = "panic" \/ {Ev.e, Ev.c} \ Alive # {})
            /\ UNCHANGED vars

TRem ==
    /\ Is("rem") /\ RegsOk
    /\ IF Ev.k \in DOMAIN types /\ RemoveOk(Ev.e, types[Ev.k])
       THEN /\ Chk("res", "remove was carried out", Returned(Ev.res, "ok", RemoveLost(Ev.e, types[Ev.k])))
            /\ DroppedIs(RemoveLost(Ev.e, types[Ev.k]), {})
            /\ RemoveNext(Ev.e, types[Ev.k])
       ELSE /\ Chk("res", "remove was refused", Ev.res = "panic" \/ Ev.e \notin Alive)
            /\ DroppedIs({}, {})
            /\ RegisterNext(Regs)
            /\ SlotOk
TRemD ==
    /\ Is("remd")
    /\ IF RemoveOk(Ev.e, Ev.c)
       THEN /\ Chk("res", "remove was carried out", Returned(Ev.res, "ok", RemoveLost(Ev.e, Ev.c)))
            /\ DroppedIs(RemoveLost(Ev.e, Ev.c), {})
            /\ RemoveNext(Ev.e, Ev.c)
       ELSE /\ Chk("res", "remove was refused", Ev.res = "panic" \/ {Ev.e, Ev.c} \ Alive # {})
            /\ DroppedIs({}, {})
            /\ UNCHANGED vars

TAlive == Is("alive") /\ UNCHANGED vars
          /\ Chk("id", "is_alive", Ev.res = IF Ev.e \in Alive THEN "true" ELSE "false")
THas == Is("has") /\ UNCHANGED vars
        /\ Chk("comps", "has_component", Ev.res = IF Ev.k \in DOMAIN types /\ Has(Ev.e, types[Ev.k]) THEN "true" ELSE "false")
TGetd ==
    /\ Is("getd") /\ UNCHANGED vars
    /\ Chk("comps", <<"pointer to component, has it", Has(Ev.e, Ev.c)>>, Ev.res = IF Has(Ev.e, Ev.c) THEN "ok" ELSE "none")
    /\ Chk("val", "value behind the pointer", (Has(Ev.e, Ev.c) /\ Ev.res = "ok") => Ev.v = ent[Ev.e][Ev.c])
    /\ Chk("align", "pointer alignment", Ev.mis = 0)
TSetd ==
    /\ Is("setd")
    /\ Chk("comps", <<"pointer to component, has it", Has(Ev.e, Ev.c)>>, Ev.res = IF Has(Ev.e, Ev.c) THEN "ok" ELSE "none")
    /\ IF Has(Ev.e, Ev.c) THEN WriteNext({<<Ev.e, Ev.c, Ev.t>>}) ELSE UNCHANGED vars

EvCol == LET c == Ev.cols IN IF \E i \in 1..Len(c) : c[i][1] = "E" THEN CHOOSE i \in 1..Len(c) : c[i][1] = "E" ELSE 0
\* The writes made while going through rows; only rows that exist can be written
Written(cols, rows, w) ==
    UNION {LET e == rows[i][EvCol] IN {<<e, cols[w[i][j][1]], w[i][j][2]>> : j \in {x \in 1..Len(w[i]) : Has(e, cols[w[i][x][1]])}} : i \in {x \in 1..Len(rows) : Len(w[x]) > 0}}
\* A row seen twice is an error already reported by the row check: keep the step well defined
WriteAll(W) == IF W = {} THEN UNCHANGED vars ELSE WriteNext(W)

TQuery ==
    /\ Is("q")
    /\ LET cols == TypedCols(Ev.cols)
       IN /\ Chk("iter", <<"typed query ran", Ev.cols>>, Ev.res = "ok")
          /\ Chk("iter", <<"rows of typed query", Ev.cols, "of", Match(cols)>>,
                 IF Ev.part = 1 THEN RowsPrefix(cols, Ev.rows, Ev.stop) ELSE RowsExact(cols, Ev.rows))
          /\ Chk("align", "references of typed query", Ev.mis = 0)
          /\ WriteAll(Written(cols, Ev.rows, Ev.w))
TGet ==
    /\ Is("qg")
    /\ LET cols == TypedCols(Ev.cols)
           in == Ev.e \in Match(cols)
       IN /\ Chk("get", <<"point lookup", Ev.cols, "expected", in>>, Ev.res = IF in THEN "ok" ELSE "none")
          /\ Chk("get", <<"values of point lookup", Ev.cols>>, (in /\ Ev.res = "ok") => Ev.rows = <<Row(cols, Ev.e)>>)
          /\ Chk("align", "references of point lookup", Ev.mis = 0)
          /\ WriteAll(IF in THEN {<<Ev.e, cols[Ev.w[j][1]], Ev.w[j][2]>> : j \in 1..Len(Ev.w)} ELSE {})
TDyn ==
    /\ Is("dq")
    /\ LET cols == DynCols(Ev.cols)
       IN /\ Chk("dyn", <<"dynamic query ran", Ev.cols>>, Ev.res = "ok")
          /\ Chk("dyn", <<"rows of dynamic query", Ev.cols, "of", Match(cols)>>, RowsExact(cols, Ev.rows))
          /\ Chk("align", "pointers of dynamic query", Ev.mis = 0)
          /\ WriteAll(Written(cols, Ev.rows, Ev.w))

\* chunks: <<first row, number of rows, reported column lengths>>
TCol ==
    /\ Is("dc")
    /\ LET cols == DynCols(Ev.cols)
           ch == SetOf(Ev.chunks)
           rows == Ev.rows
       IN /\ Chk("cols", <<"column query ran", Ev.cols>>, Ev.res = "ok")
          /\ Chk("cols", <<"columns of one chunk are equally long", Ev.cols>>, \A x \in ch : \A j \in 1..Len(x[3]) : x[3][j] = x[2])
          /\ Chk("cols", <<"rows of column query", Ev.cols, "of", Match(cols)>>, RowsExact(cols, rows))
          /\ Chk("align", "pointers of column query", Ev.mis = 0)
          /\ EvCol # 0 =>
             Chk("loc", "a chunk is one whole group in storage order",
                 \A x \in {y \in ch : y[2] > 0} :
                    LET es == {rows[r][EvCol] : r \in x[1]..(x[1] + x[2] - 1)}
                        first == rows[x[1]][EvCol]
                    IN /\ es \subseteq Alive
                       /\ \A r \in x[1]..(x[1] + x[2] - 1) : Ev.pos[r] = <<Ev.pos[x[1]][1], r - x[1]>>
                       /\ {e \in Alive : Comps(e) = Comps(first)} = es)
          /\ WriteAll(Written(cols, rows, Ev.w))

TMeta ==
    /\ Is("meta") /\ UNCHANGED vars
    /\ Chk("comps", "metadata present", Ev.res = IF Ev.e \in Alive THEN "ok" ELSE "none")
    /\ (Ev.res = "ok" /\ Ev.e \in Alive) =>
       LET k == desc[Ev.e].k IN
       Chk("comps", "component metadata", /\ Ev.size = (IF k = NoKind THEN 0 ELSE Size[k + 1])
                                          /\ Ev.align = (IF k = NoKind THEN 1 ELSE Align[k + 1])
                                          /\ (desc[Ev.e].dr => Ev.dr = 1))
TSnap ==
    /\ Is("snap") /\ UNCHANGED vars
    /\ Chk("comps", "entities with a location", {Ev.at[i][1] : i \in 1..Len(Ev.at)} = Alive)
    /\ Chk("loc", "no two entities share a position", \A i, j \in 1..Len(Ev.at) : (Ev.at[i][2] = Ev.at[j][2] /\ Ev.at[i][3] = Ev.at[j][3]) => i = j)
    /\ LET K == 1..Len(Ev.at) IN
       Chk("loc", "same group exactly when same component set",
           {Ev.at[i][1] : i \in K} \subseteq Alive /\
           \A i, j \in K : (Ev.at[i][2] = Ev.at[j][2]) <=> (Comps(Ev.at[i][1]) = Comps(Ev.at[j][1])))
TAddr ==
    /\ Is("addr") /\ UNCHANGED vars
    /\ Chk("align", "component pointers", Ev.mis = 0)
    /\ Chk("ov", "distinct components do not overlap", \A i \in 1..Len(Ev.iv) : Ev.iv[i][4] >= Ev.iv[i][3])
TFull ==
    /\ Is("full") /\ UNCHANGED vars
    /\ Chk("res", "observations ran", Ev.bad = 0)
    /\ LET al == SetOf(Ev.alive)
           V == SetOf(Ev.vals)
           want == UNION {{<<e, c>> : c \in Comps(e)} : e \in Alive}
       IN /\ Chk("id", <<"alive", al \ Alive, Alive \ al>>, al = Alive)
          /\ LET got == {<<v[1], v[2]>> : v \in V} IN Chk("comps", <<"components of entities, too many", got \ want, "missing", want \ got>>, got = want)
          /\ LET off == {v \in V : <<v[1], v[2]>> \in want /\ ent[v[1]][v[2]] # v[3]} IN Chk("val", <<"values", off>>, off = {})
          /\ LET ks == SetOf(Ev.kinds) \cap DOMAIN types
                 wh == {x \in Alive \X ks : types[x[2]] \in Comps(x[1])}
             IN Chk("comps", <<"has_component", SetOf(Ev.has) \ wh, wh \ SetOf(Ev.has)>>, SetOf(Ev.has) = wh)
TEnd ==
    /\ Is("end")
    /\ LET lost == Destroyed(UNION {{<<e, c>> : c \in Comps(e)} : e \in Alive}) IN
       Chk("res", "dropping the world", Returned(Ev.res, "ok", lost)) /\ DroppedIs(lost, {})
    /\ UNCHANGED vars

TInit == Init /\ l = 1
TNext == \/ TWorld \/ TNew \/ TReg \/ TDespawn \/ TAdd \/ TAddU \/ TAddV \/ TRem \/ TRemD
         \/ TAlive \/ THas \/ TGetd \/ TSetd \/ TQuery \/ TGet \/ TDyn \/ TCol \/ TMeta \/ TSnap \/ TAddr \/ TFull \/ TEnd
TSpec == TInit /\ [][TNext]_tvars

TInv == Inv
View == l
Accepted == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
