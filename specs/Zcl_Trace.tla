------------------------------ MODULE Zcl_Trace ------------------------------
EXTENDS Zcl, TraceKit
tvars == <<zvars, tid, l>>
TInit == /\ tid \in 1..NTraces /\ l = 2
         /\ Init0(Traces[tid][1].cfg)
Hidden == /\ More /\ Silent
          /\ \E i \in DOMAIN ops : Resume(i) \/ (Ev.ev = "result" /\ Ev.id = i /\ Ev.out = "TimeoutError" /\ TimedOut(i))
TNext == \/ IsEvent("call") /\ Call(Ev.id, Ev.o)
         \/ IsEvent("sent") /\ Sent(Ev.id, Ev.frame)
         \/ IsEvent("radio") /\ Radio(Ev.id, Ev.ok)
         \/ IsEvent("answer") /\ Answer(Ev.id, Ev.a)
         \/ IsEvent("result") /\ Result(Ev.id, Ev.out, Ev.ok, Ev.bad)
         \/ IsEvent("local") /\ Local(Ev.what, Ev.attr, Ev.val, Ev.typed)
         \/ IsEvent("adopt") /\ Adopt
         \/ IsEvent("obs") /\ Obs(Ev.vals, Ev.by_id, Ev.by_name)
         \/ IsEvent("event") /\ Event(Ev.e)
         \/ IsEvent("received") /\ Received(Ev.n, Ev.m)
         \/ IsEvent("answered") /\ Answered(Ev.ep, Ev.dst_ep, Ev.cl, Ev.data)
         \/ IsEvent("end") /\ End
         \/ Hidden
TStep == TNext /\ OneInFlight'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
