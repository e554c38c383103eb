------------------------------ MODULE Life_Trace ------------------------------
EXTENDS Life, TraceKit
trvars == <<lvs, tid, l>>
TInit == /\ tid \in 1..NTraces /\ l = 2
         /\ Init0(Traces[tid][1].conf, Traces[tid][1].state)
Hidden == More /\ Silent /\ PureStep
TNext == /\ \/ IsEvent("call") /\ Call(Ev.id, Ev.kind, Ev.a, Ev.t)
            \/ IsEvent("radio") /\ Radio(Ev.id, Ev.op, Ev.a, Ev.t)
            \/ IsEvent("end") /\ End(Ev.id, Ev.res, Ev.net, Ev.t)
            \/ IsEvent("result") /\ Result(Ev.id, Ev.out, Ev.t)
            \/ IsEvent("told") /\ Told(Ev.what, Ev.id, Ev.net, Ev.t)
            \/ IsEvent("lost") /\ Lost(Ev.err, Ev.t)
            \/ IsEvent("add") /\ Add(Ev.id, Ev.net, Ev.quiet, Ev.t)
            \/ IsEvent("obs") /\ Obs(Ev.hist, Ev.t)
            \/ Hidden
         /\ Useful' /\ AllComplete'
TSpec == TInit /\ [][TNext]_trvars
=============================================================================
