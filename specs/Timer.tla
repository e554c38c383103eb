-------------------------------- MODULE Timer --------------------------------
(* A reschedulable timeout: fires once, exactly at the deadline set last, unless cancelled. *)
EXTENDS Naturals
CONSTANTS Delays, MaxT
VARIABLES now, armed, due, fired
mvars == <<now, armed, due, fired>>
MInit == now = 0 /\ armed = FALSE /\ due = 0 /\ fired = 0
\* time may not run past a deadline
Passes(t) == t >= now /\ (armed => t <= due)
Reschedule(d, t) == Passes(t) /\ now' = t /\ armed' = TRUE /\ due' = t + d /\ UNCHANGED fired
Cancel(t) == Passes(t) /\ now' = t /\ armed' = FALSE /\ UNCHANGED <<due, fired>>
Fire(t) == armed /\ t = due /\ now <= t /\ now' = t /\ armed' = FALSE /\ fired' = fired + 1 /\ UNCHANGED due
\* everything due up to t has happened
Quiet(t) == t >= now /\ (armed => t < due) /\ now' = t /\ UNCHANGED <<armed, due, fired>>
NotLate == armed => now <= due
MNext == \E t \in 0..MaxT : Cancel(t) \/ Fire(t) \/ Quiet(t) \/ \E d \in Delays : Reschedule(d, t)
=============================================================================
