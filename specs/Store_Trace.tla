----------------------------- MODULE Store_Trace -----------------------------
EXTENDS Store, TraceKit, SequencesExt
trvars == <<stvs, tid, l>>
Facts == ToSet(Ev.facts)
TInit == tid \in 1..NTraces /\ l = 2 /\ Init0
Keep == UNCHANGED stvs
TNext == \/ IsEvent("interviewed") /\ Interviewed(Ev.d, Facts)
         \/ IsEvent("put") /\ Put(Ev.key, Ev.v, Ev.t, ToSet(Ev.need))
         \/ IsEvent("del") /\ Del(Ev.key)
         \/ IsEvent("gdel") /\ DeleteGroup(Ev.g)
         \/ IsEvent("rem") /\ Remove(Ev.d)
         \/ IsEvent("void") /\ Void
         \/ IsEvent("fault") /\ Failed
         \/ IsEvent("look") /\ Looks(Facts) /\ Keep
         \/ IsEvent("drain") /\ Drained /\ Keep
         \/ IsEvent("img") /\ Ev.ok /\ Loads(disk, Facts) /\ Keep
         \/ IsEvent("restart") /\ Restart(Facts)
         \/ IsEvent("crash") /\ Crash(Facts)
         \/ More /\ Silent /\ Persist
TSpec == TInit /\ [][TNext]_trvars
=============================================================================
