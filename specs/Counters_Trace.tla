---------------------------- MODULE Counters_Trace ----------------------------
EXTENDS Counters, TraceKit
tvars == <<cvars, tid, l>>
TInit == TraceKitInit /\ CInit
TNext == \/ IsEvent("touch") /\ Touch(Ev.p)
         \/ IsEvent("increment") /\ Increment(Ev.p, Ev.n)
         \/ IsEvent("refused") /\ Ev.n < 0 /\ UNCHANGED cnt
         \/ IsEvent("update") /\ Update(Ev.p, Ev.v)
         \/ IsEvent("reset") /\ ResetTo(Ev.p, Ev.v)
         \/ IsEvent("reset_group") /\ ResetGroup(Ev.g)
         \/ IsEvent("inc_tags") /\ IncTags(Ev.g, Ev.name, Ev.tags)
         \/ IsEvent("dump") /\ Seen(Ev.c) /\ UNCHANGED cnt
TStep == TNext /\ Consistent'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
