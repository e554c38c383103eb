--------------------------- MODULE Limiter_Trace ---------------------------
EXTENDS Limiter, TraceKit

tvars == <<lvars, tid, l>>

TInit == TraceKitInit /\ Ev.ev = "init" /\ LInit(Ev.cap)

T_init == l = 1 /\ IsEvent("init") /\ UNCHANGED lvars
T_acquire == IsEvent("acquire") /\ Acquire(Ev.t, Ev.p)
T_acquired == IsEvent("acquired") /\ Acquired(Ev.t)
T_cancel == IsEvent("cancel") /\ Cancel(Ev.t)
T_cancelled == IsEvent("cancelled") /\ Cancelled(Ev.t)
T_release == IsEvent("release") /\ Release(Ev.t)
T_refused == IsEvent("release_refused") /\ ReleaseRefused
T_resize == IsEvent("resize") /\ Ev.n >= 0 /\ Resize(Ev.n)
T_resize_refused == IsEvent("resize_refused") /\ (IF Ev.lock THEN UNCHANGED lvars ELSE ResizeRefused(Ev.n))
\* the event loop has nothing left to run: what the limiter says about itself is exact
T_quiet == /\ IsEvent("quiet") /\ Quiescent /\ UNCHANGED lvars
           /\ Ev.value = cap - Cardinality(holders)
           /\ Ev.max = cap
           /\ Ev.waiting = Len(queue)
           /\ Ev.locked = ~Free
T_grant == More /\ Silent /\ Grant

TNext == \/ T_init \/ T_acquire \/ T_acquired \/ T_cancel \/ T_cancelled \/ T_release
         \/ T_refused \/ T_resize \/ T_resize_refused \/ T_quiet \/ T_grant
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
