----------------------------- MODULE UVecTrace ------------------------------
(* Recorded executions of two real untyped vectors against UntypedVec. A "vecs" event starts an execution and tells    *)
(* whether elements have data and a destructor. After every operation the whole contents are observed four ways.       *)
EXTENDS UntypedVec, TLC, Json, IOUtils
VARIABLES l, kind
tvars == <<vec, l, kind>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
OnSet == LET given == ndJsonDeserialize(IOEnv.ONFILE)[1].on IN {given[i] : i \in 1..Len(given)}
Ev == Trace[l]
Chk(f, what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, f, what>>) /\ f \notin OnSet
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1

CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : CountIn(s, s[i]) = CountIn(t, s[i])
Lost(want) == Chk("own", <<"destroyed", Ev.dropped, "expected", want>>, SameBag(Ev.dropped, IF kind.dr = 1 THEN want ELSE <<>>))
\* checked on the state after the step: contents by index, by slice, by length
Seen == /\ Chk("seq", <<"first vector", vec'[1]>>, Ev.a = vec'[1])
        /\ Chk("seq", <<"second vector", vec'[2]>>, Ev.b = vec'[2])
        /\ Chk("seq", "length, emptiness, slice views and lookups past the end agree", Ev.odd = 0)
        /\ Chk("align", "pointers are aligned and equally spaced", Ev.mis = 0)
Res(want) == Chk("seq", <<"result", Ev.res, "expected", want>>, Ev.res = want)
\* a destructor may panic: the operation is carried out all the same
Back(want, lost) == Chk("seq", <<"result", Ev.res, "expected", want>>, Ev.res = want \/ (Ev.res = "unwound" /\ kind.dr = 1 /\ lost # <<>>))
Keep == UNCHANGED <<vec, kind>>

TVecs == Is("world") /\ vec' = <<<<>>, <<>>>> /\ kind' = [z |-> Ev.z, dr |-> Ev.dr]
TPush == Is("push") /\ PushNext(Ev.v, Ev.t) /\ UNCHANGED kind /\ Res("ok") /\ Lost(<<>>) /\ Seen
TPop == Is("pop") /\ UNCHANGED kind /\
        IF PopOk(Ev.v) THEN Back("true", PopLost(Ev.v)) /\ Lost(PopLost(Ev.v)) /\ PopNext(Ev.v) /\ Seen
                       ELSE Res("false") /\ Lost(<<>>) /\ Keep /\ Seen
TPut == Is("put") /\ UNCHANGED kind /\
        IF In(Ev.v, Ev.i) THEN Res("ok") /\ PutNext(Ev.v, Ev.i, Ev.t) /\ Lost(<<>>) /\ Seen
                          ELSE Res("none") /\ Keep /\ Lost(<<>>) /\ Seen
TRemove == Is("remove") /\ UNCHANGED kind /\
        IF RemoveOk(Ev.v, Ev.i) THEN Back("ok", RemoveLost(Ev.v, Ev.i)) /\ Lost(RemoveLost(Ev.v, Ev.i)) /\ RemoveNext(Ev.v, Ev.i) /\ Seen
                                ELSE Res("panic") /\ Lost(<<>>) /\ Keep /\ Seen
TMove == Is("move") /\ UNCHANGED kind /\
        IF MoveOk(Ev.v, Ev.i) THEN Res("ok") /\ Lost(<<>>) /\ MoveNext(Ev.v, Ev.i) /\ Seen
                              ELSE Res("panic") /\ Lost(<<>>) /\ Keep /\ Seen
TDrop == Is("drop") /\ UNCHANGED kind /\ Back("ok", DropLost(Ev.v)) /\ Lost(DropLost(Ev.v)) /\ DropNext(Ev.v) /\ Seen
TMisfit == Is("misfit") /\ Keep /\ (In(Ev.v, Ev.i) => Res("panic")) /\ Lost(<<>>) /\ Seen
TGrow == Is("grow") /\ Keep /\ Res(IF kind.z = 1 THEN "panic" ELSE "ok") /\ Lost(<<>>) /\ Seen

TInit == Init /\ l = 1 /\ kind = [z |-> 0, dr |-> 0]
TNext == TVecs \/ TPush \/ TPop \/ TPut \/ TRemove \/ TMove \/ TDrop \/ TMisfit \/ TGrow
TSpec == TInit /\ [][TNext]_tvars
View == l
Accepted == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
