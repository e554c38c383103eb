----------------------------- MODULE Select_Trace -----------------------------
EXTENDS Select, TraceKit
trvars == <<svars, tid, l>>
Provs == Traces[tid][1].provs
TInit == tid \in 1..NTraces /\ l = 2 /\ Init0({Traces[tid][1].provs[k].p : k \in 1..Len(Traces[tid][1].provs)})
Kind(p) == LET k == CHOOSE k \in 1..Len(Provs) : Provs[k].p = p IN Provs[k].kind
Later == (\E p \in DOMAIN loading : loading[p] # -1 /\ loading[p] + Timeout <= Ev.t) \/ (\E m \in DOMAIN fetching : fetching[m] + Timeout <= Ev.t)
TNext == \/ IsEvent("query") /\ Query(Ev.id, Ev.q, Ev.devid, Provs, Ev.t)
         \/ IsEvent("load") /\ Load(Ev.p, Ev.t)
         \/ IsEvent("loaded") /\ Loaded(Ev.p, Kind(Ev.p), Ev.ok, Ev.entries, Ev.t)
         \/ IsEvent("fetch") /\ Fetch(Ev.url, Ev.t)
         \/ IsEvent("fetched") /\ Fetched(Ev.url, Ev.d, Ev.t)
         \/ IsEvent("cancel") /\ Cancel(Ev.id, Ev.t)
         \/ IsEvent("offered") /\ Answered(Ev.id, Ev.ups, Ev.inners, Ev.downs, Ev.t)
         \/ IsEvent("quiet") /\ Time(Ev.t) /\ DOMAIN q = {} /\ UNCHANGED <<last, loading, known, fw, fetching, q, ready>>
         \/ More /\ Silent /\ ((Later /\ TooSlow) \/ \E i \in DOMAIN q : Choose(i) \/ Keep(i))
TSpec == TInit /\ [][TNext]_trvars
=============================================================================
