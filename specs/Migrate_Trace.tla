---------------------------- MODULE Migrate_Trace ----------------------------
EXTENDS Migrate, TraceKit, SequencesExt
trvars == <<mvars, tid, l>>
Keep == UNCHANGED mvars
TInit == tid \in 1..NTraces /\ l = 2 /\ LET e == Traces[tid][1] IN Found(e.version, ToSet(e.rows), ToSet(e.extra))
Older == orig.v < Newest
TNext == \* the process dies at some database operation: what a start afterwards would find
         \/ IsEvent("img") /\ Older /\ Looks(Ev.v, Ev.same) /\ Ev.ok /\ Restores(ToSet(Ev.facts)) /\ Keep
         \/ IsEvent("img") /\ ~Older /\ Ev.same /\ Keep
         \* an operation fails
         \/ IsEvent("failed") /\ Looks(Ev.v, Ev.same) /\ Abandon
         \/ IsEvent("opened") /\ orig.v <= Newest /\ file.v = Newest /\ ~work.on /\ Ev.v = Newest /\ Restores(ToSet(Ev.facts)) /\ Keep
         \/ IsEvent("again") /\ file.v = Newest /\ Ev.same /\ Restores(ToSet(Ev.facts)) /\ Keep
         \* a database of a newer schema, or one whose tables are newer than it claims to be
         \/ IsEvent("refused") /\ (orig.v > Newest \/ Traces[tid][1].odd) /\ Ev.same /\ Keep
         \/ IsEvent("left") /\ orig.v > Newest /\ Ev.same /\ Keep
         \/ More /\ Silent /\ Older /\ (Begin \/ Step \/ Commit)
TSpec == TInit /\ [][TNext]_trvars
=============================================================================
