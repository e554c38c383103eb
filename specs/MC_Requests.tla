----------------------------- MODULE MC_Requests -----------------------------
EXTENDS Requests, TLC
CONSTANTS NIds, MaxTime, Reqs
\* a finite instance: each request is one of Reqs
Init == QInit(("a" :> "router") @@ ("b" :> "router"), 1)
MCReqs == {<<"a", 1, 0, TRUE>>, <<"a", 2, 1, TRUE>>, <<"b", 1, 0, TRUE>>, <<"a", 2, 0, FALSE>>}
MCReqsOne == {<<"a", 1, 0, TRUE>>, <<"a", 2, 1, TRUE>>}
NextId == Cardinality(Ids) + 1
Time == now..MaxTime
Env ==
  \/ NextId <= NIds /\ \E r \in Reqs : Request(NextId, r[1], r[2], r[3], r[4], 2, now)
  \/ \E id \in Ids : \/ Sent(id, now) \/ SendFailed(id, 1, now) \/ Cancel(id, now)
  \/ \E d \in Devs, tsn \in {1, 2}, k \in {"reply", "parse_error"}, t \in {now, now + 1} :
        t <= MaxTime /\ Match(d, tsn) # {} /\ Receive(d, tsn, k, 7, t)
Sys ==
  \/ \E id \in Ids : \/ Turn(id) \/ RadioTurn(id) \/ Timeout(id)
                     \/ Handed(id, rq[id].d, rq[id].tsn, FALSE, now) \/ Sending(id, now)
                     \/ \E k \in {"reply", "parse_error", "sent", "send_error", "timeout", "cancelled"}, v \in {0, 1, 7} : Done(id, k, v, now)
Spec == Init /\ [][Env \/ Sys]_qvars /\ WF_qvars(Sys)
\* once the environment stops sending requests every request completes, provided the radio answers
AllSent == \A id \in Ids : ph[id] # "sending"
Completes == (<>[][Sys]_qvars /\ <>[]AllSent) => <>[](\A id \in Ids : ph[id] = "done")
Bound == now <= MaxTime
=============================================================================
