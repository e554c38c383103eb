------------------------------- MODULE Combine -------------------------------
(* Concurrent identical calls share one execution (zigpy.util.combine_concurrent_calls).     *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Callers, Keys, Ops, Vals

VARIABLES op,        \* op[n] = [key, state: "none"|"running"|"ok"|"error"|"cancelled", v]
          joined,    \* joined[c] = operation the caller waits for, 0 if none
          pend       \* callers whose call has not been attributed to an operation yet: c -> key, 0
cvars == <<op, joined, pend>>

NoOp == [key |-> 0, state |-> "none", v |-> 0]
Running(k) == {n \in DOMAIN op : op[n].key = k /\ op[n].state = "running"}
Waiters(n) == {c \in DOMAIN joined : joined[c] = n}
\* operations somebody still waits for
Live(k) == {n \in Running(k) : Waiters(n) # {}}

\* a call joins the running execution of the same arguments ...
CallJoin(c, k) == /\ joined[c] = 0 /\ pend[c] = 0
                  /\ \A d \in DOMAIN pend : pend[d] # k
                  /\ \E n \in (IF Live(k) # {} THEN Live(k) ELSE Running(k)) :
                        joined' = [joined EXCEPT ![c] = n]
                  /\ UNCHANGED <<op, pend>>
\* (or one that just finished, as long as not all of its callers got its outcome)
CallJoinLate(c, k) == /\ joined[c] = 0 /\ pend[c] = 0
                      /\ \E n \in DOMAIN op : /\ op[n].key = k /\ op[n].state \in {"ok", "error"}
                                              /\ Waiters(n) # {}
                                              /\ joined' = [joined EXCEPT ![c] = n]
                      /\ UNCHANGED <<op, pend>>
\* ... and only if there is none a new one is started for it
CallNew(c, k) == /\ joined[c] = 0 /\ pend[c] = 0
                 /\ Live(k) = {}
                 /\ \A d \in DOMAIN pend : pend[d] # k
                 /\ pend' = [pend EXCEPT ![c] = k]
                 /\ UNCHANGED <<op, joined>>
\* call while the execution for the same arguments is about to start
CallSame(c, k) == /\ joined[c] = 0 /\ pend[c] = 0
                  /\ \E d \in DOMAIN pend : pend[d] = k
                  /\ pend' = [pend EXCEPT ![c] = k]
                  /\ UNCHANGED <<op, joined>>
Start(n, k) == /\ op[n].state = "none"
               /\ \E d \in DOMAIN pend : pend[d] = k
               /\ op' = [op EXCEPT ![n] = [key |-> k, state |-> "running", v |-> 0]]
               /\ joined' = [c \in DOMAIN joined |-> IF pend[c] = k THEN n ELSE joined[c]]
               /\ pend' = [c \in DOMAIN pend |-> IF pend[c] = k THEN 0 ELSE pend[c]]
Finish(n, st, v) == /\ op[n].state = "running" /\ st \in {"ok", "error"}
                    /\ op' = [op EXCEPT ![n].state = st, ![n].v = v]
                    /\ UNCHANGED <<joined, pend>>
\* an execution is cancelled only if nobody waits for it any more
Abort(n) == /\ op[n].state \notin {"none", "cancelled"} /\ Waiters(n) = {}
            /\ op' = [op EXCEPT ![n].state = "cancelled"]
            /\ UNCHANGED <<joined, pend>>
\* a caller gets the outcome of the execution it shares
Return(c, st, v) == /\ joined[c] # 0
                    /\ op[joined[c]].state = st /\ op[joined[c]].v = v /\ st \in {"ok", "error"}
                    /\ joined' = [joined EXCEPT ![c] = 0]
                    /\ UNCHANGED <<op, pend>>
Cancel(c) == /\ (joined[c] # 0 \/ pend[c] # 0)
             /\ joined' = [joined EXCEPT ![c] = 0]
             /\ pend' = [pend EXCEPT ![c] = 0]
             /\ UNCHANGED op
Quiet == /\ \A c \in DOMAIN joined : pend[c] = 0 /\ (joined[c] # 0 => op[joined[c]].state = "running")

CNext == \/ \E c \in Callers, k \in Keys : CallJoin(c, k) \/ CallJoinLate(c, k) \/ CallNew(c, k) \/ CallSame(c, k)
         \/ \E n \in Ops, k \in Keys : Start(n, k)
         \/ \E n \in Ops, v \in Vals, s \in {"ok", "error"} : Finish(n, s, v)
         \/ \E n \in Ops : Abort(n)
         \/ \E c \in Callers, s \in {"ok", "error"}, v \in Vals : Return(c, s, v)
         \/ \E c \in Callers : Cancel(c)

\* at most one execution that anybody waits for, per arguments
Once == \A n, m \in DOMAIN op :
           (n # m /\ op[n].state = "running" /\ op[m].state = "running" /\ op[n].key = op[m].key)
              => (Waiters(n) = {} \/ Waiters(m) = {})
=============================================================================
