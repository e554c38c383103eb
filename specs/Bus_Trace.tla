------------------------------ MODULE Bus_Trace ------------------------------
EXTENDS Bus, TraceKit
tvars == <<bvars, tid, l>>
AllLsts == 1..6
TrHandles == [li \in AllLsts |-> {"e"} \cup (IF li # 2 THEN {"f"} ELSE {}) \cup (IF li >= 3 THEN {"g"} ELSE {})]
TInit == TraceKitInit /\ BInit
TNext == \/ IsEvent("add") /\ Add(Ev.o, Ev.li, Ev.ctx)
         \/ IsEvent("remove") /\ Drop(Ev.o, Ev.li)
         \/ IsEvent("emit") /\ Emit(Ev.o, Ev.n, Ev.a)
         \/ IsEvent("call") /\ Call(Ev.li, Ev.ctx, Ev.n, Ev.a)
         \/ IsEvent("returned") /\ Returned(Ev.li, Ev.v)
         \/ IsEvent("raised") /\ Raised(Ev.li)
         \/ IsEvent("emitted") /\ Emitted(Ev.res)
         \/ IsEvent("aemit") /\ AEmit(Ev.k, Ev.o, Ev.n, Ev.a)
         \/ IsEvent("acall") /\ ACall(Ev.k, Ev.li, Ev.ctx, Ev.n, Ev.a)
         \/ IsEvent("aend") /\ AEnd(Ev.k, Ev.i, Ev.kind, Ev.v)
         \/ IsEvent("aemitted") /\ AEmitted(Ev.k, Ev.res)
         \/ IsEvent("rest") /\ Rest
TStep == TNext /\ Isolation'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
