------------------------------- MODULE Requests -------------------------------
(* Unicast requests to devices: taking turns per device and radio-wide, sending, matching the   *)
(* reply, timing out, being cancelled.   (zigpy.device.Device.request / packet_received,        *)
(* zigpy.util.Requests, ControllerApplication.request / request limiter)                        *)
(* Time is in milliseconds.                                                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
  maxc,   \* capacity of the radio
  kind,   \* kind[d] : "router" | "end" | "unknown" | "coordinator", what the node descriptor says
  rq,     \* rq[id] : the request: [d, tsn, prio, exp, tmo]
  q,      \* q[d]  : ids waiting for the device's turn, in arrival order
  ph,     \* ph[id] : "queued" "turn" "handed" "radio" "sending" "await" "resolved" "done"
  reply,  \* reply[id] : <<>> or the first reply <<kind, v>>
  dl,     \* dl[id] : instant of the timeout while awaiting
  res,    \* res[id] : <<kind, v>> once resolved
  radioq, \* ids handed to the radio library and waiting for the radio limiter
  now
qvars == <<maxc, kind, rq, q, ph, reply, dl, res, radioq, now>>

ExtTimeout == 28000

Ids == DOMAIN ph
Devs == DOMAIN q
SeqRemove(s, x) == SelectSeq(s, LAMBDA y : y # x)

\* phases in which a request occupies its device
Busy == {"turn", "handed", "sending", "await"}
\* phases in which a reply can be matched to the request
Pending == {"handed", "radio", "sending", "await"}
InProgress(d) == {id \in Ids : rq[id].d = d /\ ph[id] \in (Busy \cup Pending)}
OnAir == {id \in Ids : ph[id] \in {"radio", "sending"}}

\* whose turn in sequence s: highest priority, then earliest
First(s, id) == \E i \in 1..Len(s) : /\ s[i] = id
                   /\ \A j \in 1..Len(s) : \/ rq[s[j]].prio < rq[id].prio
                                           \/ rq[s[j]].prio = rq[id].prio /\ i <= j

Extended(d) == kind[d] \in {"unknown", "end"}
Wait(id) == IF Extended(rq[id].d) THEN ExtTimeout ELSE rq[id].tmo

\* time cannot pass a deadline without the timeout happening
Tick(t) == /\ t >= now /\ now' = t
           /\ \A id \in Ids : ph[id] = "await" => t <= dl[id]

QInit(devkinds, cap) ==
  /\ maxc = cap /\ kind = devkinds
  /\ rq = << >> /\ ph = << >> /\ reply = << >> /\ dl = << >> /\ res = << >>
  /\ q = [d \in DOMAIN devkinds |-> <<>>]
  /\ radioq = <<>> /\ now = 0

Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Request(id, d, tsn, prio, exp, tmo, t) ==
  /\ id \notin Ids /\ Tick(t)
  /\ rq' = Ext(rq, id, [d |-> d, tsn |-> tsn, prio |-> prio, exp |-> exp, tmo |-> tmo])
  /\ ph' = Ext(ph, id, "queued") /\ reply' = Ext(reply, id, <<>>)
  /\ dl' = Ext(dl, id, 0) /\ res' = Ext(res, id, <<>>)
  /\ q' = [q EXCEPT ![d] = Append(@, id)]
  /\ UNCHANGED <<maxc, kind, radioq>>

\* the device becomes free for the next request (decided silently)
Turn(id) == LET d == rq[id].d IN
  /\ ph[id] = "queued" /\ InProgress(d) = {} /\ First(q[d], id)
  /\ ph' = [ph EXCEPT ![id] = "turn"]
  /\ q' = [q EXCEPT ![d] = SeqRemove(@, id)]
  /\ UNCHANGED <<maxc, kind, rq, reply, dl, res, radioq, now>>

\* the packet is handed to the radio library: extended = it is told to use the slow retries
Handed(id, d, tsn, ext, t) ==
  /\ ph[id] = "turn" /\ Tick(t) /\ d = rq[id].d /\ tsn = rq[id].tsn
  /\ ext = (rq[id].exp /\ Extended(d))
  /\ ph' = [ph EXCEPT ![id] = "handed"]
  /\ radioq' = Append(radioq, id)
  /\ UNCHANGED <<maxc, kind, rq, q, reply, dl, res>>

RadioTurn(id) ==
  /\ ph[id] = "handed" /\ Cardinality(OnAir) < maxc /\ First(radioq, id)
  /\ ph' = [ph EXCEPT ![id] = "radio"]
  /\ radioq' = SeqRemove(radioq, id)
  /\ UNCHANGED <<maxc, kind, rq, q, reply, dl, res, now>>

Sending(id, t) ==
  /\ ph[id] = "radio" /\ Tick(t)
  /\ ph' = [ph EXCEPT ![id] = "sending"]
  /\ UNCHANGED <<maxc, kind, rq, q, reply, dl, res, radioq>>

\* the radio delivered the frame; the time to wait for the reply starts now
Sent(id, t) ==
  /\ ph[id] = "sending" /\ Tick(t)
  /\ IF ~rq[id].exp
     THEN /\ ph' = [ph EXCEPT ![id] = "resolved"] /\ res' = [res EXCEPT ![id] = <<"sent", 0>>]
          /\ UNCHANGED dl
     ELSE IF reply[id] # <<>>
     THEN /\ ph' = [ph EXCEPT ![id] = "resolved"] /\ res' = [res EXCEPT ![id] = reply[id]]
          /\ UNCHANGED dl
     ELSE /\ ph' = [ph EXCEPT ![id] = "await"] /\ dl' = [dl EXCEPT ![id] = t + Wait(id)]
          /\ UNCHANGED res
  /\ UNCHANGED <<maxc, kind, rq, q, reply, radioq>>

SendFailed(id, v, t) ==
  /\ ph[id] = "sending" /\ Tick(t)
  /\ ph' = [ph EXCEPT ![id] = "resolved"] /\ res' = [res EXCEPT ![id] = <<"send_error", v>>]
  /\ UNCHANGED <<maxc, kind, rq, q, reply, dl, radioq>>

\* the pending request a reply with sequence number tsn from device d belongs to
Match(d, tsn) == {id \in InProgress(d) : ph[id] \in Pending /\ rq[id].tsn = tsn /\ rq[id].exp}

\* a reply is received: k = "reply" or "parse_error" (its payload cannot be parsed)
Receive(d, tsn, k, v, t) ==
  /\ Tick(t)
  /\ LET m == {id \in Match(d, tsn) : reply[id] = <<>>} IN
     /\ reply' = [id \in Ids |-> IF id \in m THEN <<k, v>> ELSE reply[id]]
     /\ ph' = [id \in Ids |-> IF id \in m /\ ph[id] = "await" THEN "resolved" ELSE ph[id]]
     /\ res' = [id \in Ids |-> IF id \in m /\ ph[id] = "await" THEN <<k, v>> ELSE res[id]]
  /\ UNCHANGED <<maxc, kind, rq, q, dl, radioq>>

\* something that is not a reply (a request or command of the device) never completes a request
ReceiveOther(d, tsn, t) == Tick(t) /\ UNCHANGED <<maxc, kind, rq, q, ph, reply, dl, res, radioq>>

Timeout(id) ==
  /\ ph[id] = "await" /\ now' = dl[id] /\ now' >= now
  /\ \A o \in Ids : ph[o] = "await" => dl[o] >= now'
  /\ ph' = [ph EXCEPT ![id] = "resolved"] /\ res' = [res EXCEPT ![id] = <<"timeout", 0>>]
  /\ UNCHANGED <<maxc, kind, rq, q, reply, dl, radioq>>

Cancel(id, t) ==
  /\ id \in Ids /\ ph[id] # "done" /\ Tick(t)
  /\ ph' = [ph EXCEPT ![id] = "resolved"]
  /\ \/ res' = [res EXCEPT ![id] = <<"cancelled", 0>>]
     \/ ph[id] = "resolved" /\ UNCHANGED res
  /\ q' = [q EXCEPT ![rq[id].d] = SeqRemove(@, id)]
  /\ radioq' = SeqRemove(radioq, id)
  /\ UNCHANGED <<maxc, kind, rq, reply, dl>>

\* the caller gets its result, at once
Done(id, k, v, t) ==
  /\ id \in Ids /\ ph[id] = "resolved" /\ res[id] = <<k, v>> /\ Tick(t) /\ t = now
  /\ ph' = [ph EXCEPT ![id] = "done"]
  /\ UNCHANGED <<maxc, kind, rq, q, reply, dl, res, radioq>>

\* what the node descriptor of a device says changes
Describe(d, k, t) == /\ Tick(t) /\ kind' = [kind EXCEPT ![d] = k]
                     /\ UNCHANGED <<maxc, rq, q, ph, reply, dl, res, radioq>>

\* nothing more happens at this instant
Quiet(t) ==
  /\ Tick(t)
  /\ \A id \in Ids : ph[id] \notin {"turn", "radio", "resolved"}
  /\ \A d \in Devs : InProgress(d) = {} => q[d] = <<>>
  /\ Cardinality(OnAir) < maxc => radioq = <<>>
  /\ \A id \in Ids : ph[id] = "await" => dl[id] > t
  /\ UNCHANGED <<maxc, kind, rq, q, ph, reply, dl, res, radioq>>

\* number of replies device d is still expected to give
Expecting(d) == Cardinality({id \in InProgress(d) : ph[id] \in Pending /\ rq[id].exp})

\* ----------------------------------------------------------------------------- properties
OnePerDevice == \A d \in Devs : Cardinality(InProgress(d)) <= 1
RadioLimit == Cardinality(OnAir) <= maxc
\* a result is the first matching reply, or one of the failures
Sound == \A id \in Ids : ph[id] \in {"resolved", "done"} /\ res[id] # <<>> =>
            \/ res[id] = reply[id]
            \/ res[id][1] \in {"timeout", "send_error", "cancelled"}
            \/ ~rq[id].exp /\ res[id][1] = "sent"
\* completes exactly once: a result never changes afterwards
Final == [][\A id \in Ids : ph[id] = "done" => ph'[id] = "done" /\ res'[id] = res[id]]_qvars
\* requests of one device start in order of priority and arrival
Ordered == [][\A id \in Ids : ph[id] = "queued" /\ ph'[id] = "turn" => First(q[rq[id].d], id)]_qvars
=============================================================================
