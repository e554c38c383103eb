-------------------------------- MODULE Retry --------------------------------
(* One retried operation (zigpy.util.retry / retryable / retryable_request).                *)
(* Time is in milliseconds.                                                                 *)
EXTENDS Naturals, Sequences

CONSTANTS TriesSet, Delays, Args, Vals, MaxTime

VARIABLES phase,     \* "idle" | "due" | "running" | "failed" | "finished" | "done"
          tries,     \* allowed number of attempts
          delay, args,
          attempts,  \* attempts made
          due,       \* instant of the next attempt
          now,
          last       \* outcome of the last attempt / final outcome <<kind, value>>
rvars == <<phase, tries, delay, args, attempts, due, now, last>>

RInit == /\ phase = "idle" /\ tries = 0 /\ delay = 0 /\ args = 0 /\ attempts = 0 /\ due = 0 /\ now = 0
         /\ last = <<"none", 0>>

Call(n, d, a, t) ==
    /\ phase = "idle" /\ t >= now
    /\ phase' = "due" /\ tries' = n /\ delay' = d /\ args' = a /\ due' = t /\ now' = t
    /\ attempts' = 0 /\ last' = <<"none", 0>>

\* the operation is called with the caller's arguments, exactly when it is due
Attempt(a, t) ==
    /\ phase = "due" /\ t = due /\ a = args
    /\ phase' = "running" /\ attempts' = attempts + 1 /\ now' = t
    /\ UNCHANGED <<tries, delay, args, due, last>>

Limit == IF tries < 1 THEN 1 ELSE tries

\* the attempt ends: "ok", "retry" (an error to be retried), "fatal" (any other error)
Outcome(kind, v, t) ==
    /\ phase = "running" /\ t >= now
    /\ now' = t /\ last' = <<kind, v>>
    /\ IF kind = "retry" /\ attempts < Limit
       THEN phase' = "due" /\ due' = t + delay
       ELSE phase' = "finished" /\ due' = due
    /\ UNCHANGED <<tries, delay, args, attempts>>

\* the caller gets the outcome of the last attempt, at once
Return(kind, v, t) ==
    /\ phase = "finished" /\ t = now
    /\ kind = last[1] /\ v = last[2]
    /\ phase' = "done"
    /\ UNCHANGED <<tries, delay, args, attempts, due, now, last>>

\* the caller is cancelled while an attempt runs or during the pause: no further attempts
Cancel(t) == /\ phase \in {"due", "running"} /\ t >= now
             /\ phase' = "finished" /\ now' = t /\ last' = <<"cancelled", 0>>
             /\ UNCHANGED <<tries, delay, args, attempts, due>>

RNext == \/ \E n \in TriesSet, d \in Delays, a \in Args : Call(n, d, a, now)
         \/ \E a \in Args, t \in now..MaxTime : Attempt(a, t)
         \/ \E k \in {"ok", "retry", "fatal"}, v \in Vals, t \in now..MaxTime : Outcome(k, v, t)
         \/ \E k \in {"ok", "retry", "fatal", "cancelled"}, v \in Vals \cup {0} : Return(k, v, now)
         \/ \E t \in now..MaxTime : Cancel(t)

\* never more attempts than allowed; at least one
Bounded == attempts <= Limit
\* a final error that is retryable means that every allowed attempt was used
UsedUp == (phase = "done" /\ last[1] = "retry") => attempts = Limit
=============================================================================
