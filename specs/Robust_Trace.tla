----------------------------- MODULE Robust_Trace -----------------------------
EXTENDS Robust, TraceKit
tvars == <<rvars, tid, l>>
TInit == TraceKitInit /\ RInit
TNext == \/ IsEvent("recv") /\ Recv
         \/ IsEvent("returned") /\ Returned
         \/ IsEvent("probe") /\ Probe(Ev.n)
         \/ IsEvent("handled") /\ Handled(Ev.n)
TStep == TNext /\ Steady'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
