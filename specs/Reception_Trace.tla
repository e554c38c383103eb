---------------------------- MODULE Reception_Trace ----------------------------
EXTENDS Reception, TraceKit
tvars == <<pvars, tid, l>>
ToEps(e) == [x \in {e[i].ep : i \in 1..Len(e)} |-> LET i == CHOOSE j \in 1..Len(e) : e[j].ep = x IN ToSet(e[i].cl)]
ToDev(r) == [eps |-> ToEps(r.eps), ready |-> r.ready, desc |-> r.desc]
TInit == /\ TraceKitInit /\ Ev.ev = "init"
         /\ PInit([d \in DOMAIN Ev.devs |-> ToDev(Ev.devs[d])], [d \in DOMAIN Ev.devs |-> FALSE])
TNext == \/ l = 1 /\ IsEvent("init") /\ UNCHANGED pvars
         \/ IsEvent("recv") /\ Recv(Ev)
         \/ IsEvent("announce") /\ Announce(Ev.d, Ev.key)
         \/ IsEvent("quirk") /\ Quirk(Ev.d, Ev.key, Ev.completes, ToEps(Ev.eps))
         \/ IsEvent("callback") /\ Callback(Ev.id, Ev.n)
         \/ IsEvent("callback_end") /\ CallbackEnd(Ev.how, Ev.id)
         \/ IsEvent("awaited") /\ Awaited(Ev.id)
         \/ IsEvent("handler") /\ Handler(Ev.d, Ev.sep, Ev.cl, Ev.tsn)
         \/ IsEvent("recv_end") /\ RecvEnd
         \/ IsEvent("discover") /\ Discover(Ev.src, Ev.t)
         \/ IsEvent("asks") /\ Asks(Ev.d, Ev.t)
         \/ IsEvent("interview_failed") /\ InterviewFailed(Ev.d, Ev.t)
         \/ IsEvent("ask") /\ Ask(Ev.id, Ev.d, Ev.tsn, Ev.t)
         \/ IsEvent("done") /\ Done(Ev.id, Ev.d, Ev.tsn, Ev.k, Ev.n, Ev.t)
         \/ IsEvent("register") /\ Register(Ev.id, Ev.target, Ev.kind, ToSet(Ev.match))
         \/ IsEvent("unregister") /\ Unregister(Ev.id)
         \/ IsEvent("resolved") /\ Resolved(Ev.id, Ev.n)
         \/ IsEvent("give_up") /\ GiveUp(Ev.id)
         \/ IsEvent("quiet") /\ Settled(Ev.t, Ev.devs)
         \/ More /\ Silent /\ cur.stage = "listeners" /\ cur.todo # <<>> /\ LET s == NextUp(cur.p, cur.todo) IN s # <<>> /\ Take(Head(s).id)
TStep == TNext /\ TypeOK'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
