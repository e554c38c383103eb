------------------------------ MODULE Topology_Trace ------------------------------
EXTENDS Topology, TraceKit
trvars == <<tvs, tid, l>>
TInit == /\ tid \in 1..NTraces /\ l = 2
         /\ Init0(Traces[tid][1].conf)
Due(t) == t <= Ev.t
Hidden == /\ More /\ Silent
          /\ \/ scan.phase = "begin" /\ Due(scan.at) /\ Begin
             \/ StartTable
             \/ scan.phase = "wait" /\ Due(scan.at) /\ Expire
             \/ scan.phase = "sleep" /\ Due(scan.at) /\ Wake
             \/ Store
             \/ Look
             \/ scan.phase = "findgap" /\ Due(scan.at) /\ FindGap
             \/ loop.on /\ loop.at >= 0 /\ Due(loop.at) /\ Period
TNext == \/ IsEvent("device") /\ Device(Ev.d, Ev.t)
         \/ IsEvent("gone") /\ Gone(Ev.n, Ev.t)
         \/ IsEvent("scan") /\ Call(Ev.id, Ev.given, Ev.list, Ev.t)
         \/ IsEvent("cancel") /\ CancelCall(Ev.id, Ev.t)
         \/ IsEvent("start") /\ Start(Ev.period, Ev.t)
         \/ IsEvent("stop") /\ Stop(Ev.t)
         \/ IsEvent("ask") /\ Ask(Ev.id, Ev.n, Ev.tab, Ev.idx, Ev.t)
         \/ IsEvent("radio") /\ Settled /\ (IF Ev.find THEN FindRadio(Ev.id, Ev.ok, Ev.t) ELSE Radio(Ev.id, Ev.ok, Ev.t))
         \/ IsEvent("answer") /\ Settled /\ Answer(Ev.id, Ev.a, Ev.t)
         \/ IsEvent("told") /\ Told(Ev.tab, Ev.n, Ev.table, Ev.t)
         \/ IsEvent("find") /\ Find(Ev.id, Ev.nwk, Ev.t)
         \/ IsEvent("result") /\ Result(Ev.id, Ev.out, Ev.t)
         \/ IsEvent("obs") /\ Obs(Ev.t, Ev.nb, Ev.rt)
         \/ Hidden
TSpec == TInit /\ [][TNext]_trvars
=============================================================================
