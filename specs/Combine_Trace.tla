---------------------------- MODULE Combine_Trace ----------------------------
EXTENDS Combine, TraceKit
tvars == <<cvars, tid, l>>
Cs == {Trace[i].c : i \in {j \in 1..Len(Trace) : Trace[j].ev = "call"}}
Os == {Trace[i].n : i \in {j \in 1..Len(Trace) : Trace[j].ev = "start"}}
TInit == /\ TraceKitInit
         /\ op = [n \in Os |-> NoOp]
         /\ joined = [c \in Cs |-> 0] /\ pend = [c \in Cs |-> 0]
TNext == \/ IsEvent("call") /\ (CallJoin(Ev.c, Ev.k) \/ CallJoinLate(Ev.c, Ev.k) \/ CallNew(Ev.c, Ev.k) \/ CallSame(Ev.c, Ev.k))
         \/ IsEvent("start") /\ Start(Ev.n, Ev.k)
         \/ IsEvent("finish") /\ Finish(Ev.n, Ev.kind, Ev.v)
         \/ IsEvent("abort") /\ Abort(Ev.n)
         \/ IsEvent("return") /\ Return(Ev.c, Ev.kind, Ev.v)
         \/ IsEvent("cancel") /\ Cancel(Ev.c)
         \/ IsEvent("quiet") /\ Quiet /\ UNCHANGED cvars
TStep == TNext /\ Once'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
