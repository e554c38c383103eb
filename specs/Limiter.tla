------------------------------- MODULE Limiter -------------------------------
(* The priority concurrency limiter (zigpy.datastructures.PriorityDynamicBoundedSemaphore /   *)
(* PriorityLock) as its users see it: calls to acquire (with a priority), cancellation of a   *)
(* waiting acquire, release, change of capacity.                                              *)
(* A slot is first granted (decided by the limiter) and then the acquire call returns; an     *)
(* acquire may be cancelled between the two.                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Tasks, Prios, Caps

VARIABLES cap,      \* current capacity
          holders,  \* tasks whose acquire returned and that have not released
          granted,  \* tasks a slot was granted to, acquire not returned yet
          queue,    \* waiting tasks in arrival order, <<task, priority>>
          doomed    \* cancelled acquires whose cancellation was not delivered yet

lvars == <<cap, holders, granted, queue, doomed>>

Used == Cardinality(holders) + Cardinality(granted)
Free == Used < cap
Waiting == {queue[i][1] : i \in 1..Len(queue)}
Active == holders \cup granted \cup Waiting \cup doomed

\* position of the waiter whose turn it is: highest priority, then earliest arrival
IsNext(i) == /\ i \in 1..Len(queue)
             /\ \A j \in 1..Len(queue) : \/ queue[j][2] < queue[i][2]
                                         \/ queue[j][2] = queue[i][2] /\ i <= j
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

LInit(c) == /\ cap = c
            /\ holders = {} /\ granted = {} /\ doomed = {}
            /\ queue = <<>>

Acquire(t, p) == /\ t \notin Active
                 /\ queue' = Append(queue, <<t, p>>)
                 /\ UNCHANGED <<cap, holders, granted, doomed>>

Grant == /\ Free
         /\ \E i \in 1..Len(queue) :
               /\ IsNext(i)
               /\ granted' = granted \cup {queue[i][1]}
               /\ queue' = RemoveAt(queue, i)
         /\ UNCHANGED <<cap, holders, doomed>>

\* acquire() returns to the caller
Acquired(t) == /\ t \in granted
               /\ granted' = granted \ {t}
               /\ holders' = holders \cup {t}
               /\ UNCHANGED <<cap, queue, doomed>>

\* somebody cancels the acquire of t; a slot already granted is free again
Cancel(t) == /\ t \in granted \cup Waiting
             /\ granted' = granted \ {t}
             /\ queue' = SelectSeq(queue, LAMBDA w : w[1] # t)
             /\ doomed' = doomed \cup {t}
             /\ UNCHANGED <<cap, holders>>

Cancelled(t) == /\ t \in doomed
                /\ doomed' = doomed \ {t}
                /\ UNCHANGED <<cap, holders, granted, queue>>

Release(t) == /\ t \in holders
              /\ holders' = holders \ {t}
              /\ UNCHANGED <<cap, granted, queue, doomed>>

\* release() although nothing is held is refused
ReleaseRefused == /\ holders = {}
                  /\ UNCHANGED lvars

Resize(n) == /\ cap' = n
             /\ UNCHANGED <<holders, granted, queue, doomed>>

\* a negative capacity is refused
ResizeRefused(n) == n < 0 /\ UNCHANGED lvars

\* nothing is left to happen without a further call
Quiescent == /\ granted = {} /\ doomed = {}
             /\ ~(Free /\ queue # <<>>)

LNext == \/ \E t \in Tasks, p \in Prios : Acquire(t, p)
         \/ Grant
         \/ \E t \in Tasks : Acquired(t) \/ Cancel(t) \/ Cancelled(t) \/ Release(t)
         \/ \E n \in Caps : Resize(n)

\* ----------------------------------------------------------------------------- properties
TypeOK == /\ cap \in Caps
          /\ holders \subseteq Tasks /\ granted \subseteq Tasks /\ doomed \subseteq Tasks
          /\ Waiting \subseteq Tasks

\* each task is in exactly one place
Disjoint == /\ Cardinality(Active) = Cardinality(holders) + Cardinality(granted) + Len(queue)
                                      + Cardinality(doomed)

\* a slot is only ever granted within the capacity of that moment
NeverOverAdmits == [][Used' > Used => Used' <= cap]_lvars
\* nobody overtakes a waiter of equal or higher priority
InTurn == [][\A i \in 1..Len(queue) :
               (queue[i][1] \in granted' /\ queue[i][1] \notin granted) => IsNext(i)]_lvars
\* no lost wake-up: once nobody calls the limiter any more, it comes to rest with no free slot
\* while somebody waits
Internal == Grant \/ \E t \in Tasks : Acquired(t) \/ Cancelled(t)
NoLostWakeup == <>[][Internal]_lvars => <>[]Quiescent
\* a granted acquire returns (or is cancelled)
Delivered == \A t \in Tasks : t \in granted ~> t \notin granted

LFair == WF_lvars(Grant) /\ \A t \in Tasks : WF_lvars(Acquired(t)) /\ WF_lvars(Cancelled(t))
=============================================================================
