----------------------------- MODULE Retry_Trace -----------------------------
EXTENDS Retry, TraceKit
tvars == <<rvars, tid, l>>
TInit == TraceKitInit /\ RInit
TNext == \/ IsEvent("call") /\ Call(Ev.tries, Ev.delay, Ev.args, Ev.t)
         \/ IsEvent("attempt") /\ Attempt(Ev.args, Ev.t)
         \/ IsEvent("outcome") /\ Outcome(Ev.kind, Ev.v, Ev.t)
         \/ IsEvent("return") /\ Return(Ev.kind, Ev.v, Ev.t)
         \/ IsEvent("cancel") /\ Cancel(Ev.t)
\* the properties are evaluated on every step of the real behaviour
TStep == TNext /\ Bounded' /\ UsedUp'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
