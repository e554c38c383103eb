---------------------------- MODULE Requests_Trace ----------------------------
EXTENDS Requests, TraceKit
tvars == <<qvars, tid, l>>
TInit == TraceKitInit /\ Ev.ev = "init" /\ QInit(Ev.kinds, Ev.cap)
TNext ==
  \/ l = 1 /\ IsEvent("init") /\ UNCHANGED qvars
  \/ IsEvent("request") /\ Request(Ev.id, Ev.d, Ev.tsn, Ev.prio, Ev.exp, Ev.tmo, Ev.t)
  \/ IsEvent("handed") /\ Ev.id \in Ids /\ Handed(Ev.id, Ev.d, Ev.tsn, Ev.ext, Ev.t)
  \/ IsEvent("sending") /\ Ev.id \in Ids /\ Sending(Ev.id, Ev.t)
  \/ IsEvent("sent") /\ Ev.id \in Ids /\ Sent(Ev.id, Ev.t)
  \/ IsEvent("send_failed") /\ Ev.id \in Ids /\ SendFailed(Ev.id, Ev.v, Ev.t)
  \/ IsEvent("receive") /\ Receive(Ev.d, Ev.tsn, Ev.k, Ev.v, Ev.t)
  \/ IsEvent("receive_other") /\ ReceiveOther(Ev.d, Ev.tsn, Ev.t)
  \/ IsEvent("cancel") /\ Cancel(Ev.id, Ev.t)
  \/ IsEvent("done") /\ Done(Ev.id, Ev.k, Ev.v, Ev.t)
  \/ IsEvent("describe") /\ Describe(Ev.d, Ev.k, Ev.t)
  \/ IsEvent("quiet") /\ Quiet(Ev.t) /\ (\A d \in Devs : Ev.pending[d] = Expecting(d))
  \/ More /\ Silent /\ \E id \in Ids :
        \/ Turn(id)
        \/ RadioTurn(id)
        \/ Timeout(id) /\ now' <= Ev.t
TStep == TNext /\ OnePerDevice' /\ RadioLimit' /\ Sound'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
