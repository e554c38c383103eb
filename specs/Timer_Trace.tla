------------------------------ MODULE Timer_Trace ------------------------------
EXTENDS Timer, TraceKit
tvars == <<mvars, tid, l>>
TInit == TraceKitInit /\ MInit
TNext == \/ IsEvent("reschedule") /\ Reschedule(Ev.d, Ev.t)
         \/ IsEvent("cancel") /\ Cancel(Ev.t)
         \/ IsEvent("fire") /\ Fire(Ev.t)
         \/ IsEvent("quiet") /\ Quiet(Ev.t)
TStep == TNext /\ NotLate'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
