------------------------------- MODULE Reception -------------------------------
(* Packet reception: what zigpy does with one received packet after another.                    *)
(*                                                                                              *)
(* ControllerApplication.packet_received -> Device.packet_received -> response listeners and   *)
(* endpoint handlers; de-duplication, gating of half-known devices, discovery of unknown ones. *)
(* One packet is delivered at a time (`cur`); callbacks run inside of its delivery.            *)
(* A packet is a record                                                                         *)
(*   d    device that owns the source address ("?": nobody)     nwk   it came by network address *)
(*   key  identity of all that is not reception metadata        sep, dep, cl   addressing        *)
(*   hdr  its header can be parsed       body  "ok" | "bad" | "raw" (command nobody knows)       *)
(*   reply, tsn   from the header        cls   what the command is, for the filters             *)
(*   ts, lqi, rssi   reception metadata (-1: not known; rssi is given as 1000 + dBm)            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT Window     \* duplicates are dropped for this long (ms)

VARIABLES
  now,
  dev,     \* device -> [eps: endpoint -> set of clusters, ready: endpoints known completely, desc: node descriptor known]
  busy,    \* device -> an interview is running
  asked,   \* device -> instant of the last interview request sent (-1: none since the interview started)
  win,     \* device -> set of <<key, instant>>: packets that were processed
  meta,    \* device -> <<last seen, lqi, rssi>>
  pend,    \* device -> tsn -> <<request, "open"|"ok"|"bad", value carried by the answer>>
  lst,     \* sequence of registrations [id, target, kind, match]
  fut,     \* id of a one-shot listener -> number of the packet that resolved it, 0 if none yet
  cur,     \* the packet being delivered
  npkt,    \* number of packets received
  todo     \* background obligations: bag (sequence) of <<kind, what>>
pvars == <<now, dev, busy, asked, win, meta, pend, lst, fut, cur, npkt, todo>>

Devs == DOMAIN dev
NoPkt == [stage |-> "none"]
Init0(d) == dev[d].desc /\ dev[d].ready
HasEps(d) == DOMAIN dev[d].eps # {}

PInit(ds, bs) == /\ dev = ds /\ busy = bs
                 /\ now = 0 /\ asked = [d \in DOMAIN ds |-> -1]
                 /\ win = [d \in DOMAIN ds |-> {}] /\ meta = [d \in DOMAIN ds |-> <<-1, -1, -1>>]
                 /\ pend = [d \in DOMAIN ds |-> <<>>]
                 /\ lst = <<>> /\ fut = <<>> /\ cur = NoPkt /\ npkt = 0 /\ todo = <<>>

Idle == cur.stage = "none"
Free == IF Idle THEN TRUE ELSE cur.stage = "incallback"     \* user code is running

SetMeta(d, p) == [meta EXCEPT ![d] = <<p.ts, IF p.lqi = -1 THEN @[2] ELSE p.lqi, IF p.rssi = -1 THEN @[3] ELSE p.rssi>>]
Duplicate(d, p) == \E w \in win[d] : w[1] = p.key /\ p.t < w[2] + Window
Gated(d, p) == ~Init0(d) /\ ~(p.dep = 0 \/ (dev[d].ready /\ HasEps(d)) \/ (HasEps(d) /\ p.cl = 0))

\* does the packet concern something the device has?
Concerns(d, p) == /\ p.sep = 0 \/ p.sep \in DOMAIN dev[d].eps
                  /\ p.sep = 0 => p.dep = 0
                  /\ p.dep = 0 \/ p.cl \in dev[d].eps[p.sep]
Answers(d, p) == p.reply /\ p.tsn \in DOMAIN pend[d]
Registered(d, p) == SelectSeq(lst, LAMBDA r : r.target = "any") \o SelectSeq(lst, LAMBDA r : r.target = d)

\* ---- a packet comes in -----------------------------------------------------------------------------
Recv(p) ==
    /\ Idle /\ p.t >= now /\ now' = p.t /\ npkt' = npkt + 1
    /\ IF p.d \notin Devs
       THEN /\ cur' = [stage |-> "end", p |-> p]
            /\ todo' = IF p.nwk THEN Append(todo, <<"discover", p.src>>) ELSE todo
            /\ UNCHANGED <<dev, busy, asked, win, meta, pend, lst, fut>>
       ELSE /\ cur' = [stage |-> "announce", p |-> p]
            /\ UNCHANGED <<dev, busy, asked, win, meta, pend, lst, fut, todo>>

StartInterview(d) == /\ busy' = [busy EXCEPT ![d] = TRUE]
                     /\ asked' = IF busy[d] THEN asked ELSE [asked EXCEPT ![d] = -1]

\* the message is announced to the application's listeners, then taken on or offered to the quirks
Announce(d, key) ==
    /\ cur.stage = "announce" /\ cur.p.d = d /\ cur.p.key = key
    /\ LET p == cur.p IN
       IF Gated(d, p)
       THEN /\ cur' = [stage |-> "quirk", p |-> p]
            /\ UNCHANGED <<dev, busy, asked, win, meta, pend>>
       ELSE
       /\ IF Init0(d) THEN UNCHANGED <<busy, asked>> ELSE StartInterview(d)
       /\ meta' = SetMeta(d, p)
       /\ IF Duplicate(d, p)
          THEN cur' = [stage |-> "end", p |-> p] /\ UNCHANGED <<win, pend>>
          ELSE /\ win' = [win EXCEPT ![d] = {w \in @ : w[1] # p.key} \cup {<<p.key, p.t>>}]
               /\ IF ~Concerns(d, p) \/ ~p.hdr
                  THEN cur' = [stage |-> "end", p |-> p] /\ UNCHANGED pend
                  ELSE IF Answers(d, p)
                  THEN /\ pend' = IF pend[d][p.tsn][2] = "open"
                                  THEN [pend EXCEPT ![d][p.tsn] = <<@[1], IF p.body = "bad" THEN "bad" ELSE "ok", p.val>>]
                                  ELSE pend
                       /\ cur' = [stage |-> "end", p |-> p]
                  ELSE IF p.body = "bad"
                  THEN cur' = [stage |-> "end", p |-> p] /\ UNCHANGED pend
                  ELSE /\ cur' = [stage |-> "listeners", p |-> p, todo |-> Registered(d, p)]
                       /\ UNCHANGED pend
    /\ UNCHANGED <<now, dev, lst, fut, npkt, todo>>

\* the quirks' early-recognition handlers are offered the message; one of them may complete the device
Quirk(d, key, completes, eps) ==
    /\ cur.stage = "quirk" /\ cur.p.d = d /\ cur.p.key = key
    /\ dev' = IF completes THEN [dev EXCEPT ![d] = [eps |-> eps, ready |-> TRUE, desc |-> TRUE]] ELSE dev
    /\ cur' = [stage |-> "afterquirk", p |-> cur.p]
    /\ UNCHANGED <<now, busy, asked, win, meta, pend, lst, fut, npkt, todo>>

StillRegistered(r) == \E i \in 1..Len(lst) : lst[i].id = r.id
\* the next listener that the message concerns
Skips(p, r) == \/ ~StillRegistered(r) \/ {p.cls, p.gen} \cap r.match = {} \/ (r.kind = "future" /\ fut[r.id] # 0)
RECURSIVE NextUp(_, _)
NextUp(p, s) == IF s = <<>> THEN <<>> ELSE IF Skips(p, Head(s)) THEN NextUp(p, Tail(s)) ELSE s

\* a one-shot listener takes the message and hides it from those after it
Take(id) ==
    /\ cur.stage = "listeners"
    /\ LET s == NextUp(cur.p, cur.todo) IN
       /\ s # <<>> /\ Head(s).kind = "future" /\ Head(s).id = id
       /\ fut' = [fut EXCEPT ![id] = npkt]
       /\ cur' = [cur EXCEPT !.todo = <<>>]
    /\ UNCHANGED <<now, dev, busy, asked, win, meta, pend, lst, npkt, todo>>
Callback(id, n) ==
    /\ cur.stage = "listeners" /\ n = npkt
    /\ LET s == NextUp(cur.p, cur.todo) IN
       /\ s # <<>> /\ Head(s).kind = "callback" /\ Head(s).id = id
       /\ cur' = [stage |-> "incallback", p |-> cur.p, todo |-> Tail(s)]
    /\ UNCHANGED <<now, dev, busy, asked, win, meta, pend, lst, fut, npkt, todo>>
\* it returns, fails, or returns something that still has to be awaited
CallbackEnd(how, id) ==
    /\ cur.stage = "incallback"
    /\ cur' = [cur EXCEPT !.stage = "listeners"]
    /\ todo' = IF how = "await" THEN Append(todo, <<"await", id>>) ELSE todo
    /\ UNCHANGED <<now, dev, busy, asked, win, meta, pend, lst, fut, npkt>>
Awaited(id) == /\ Contains(todo, <<"await", id>>)
               /\ LET i == CHOOSE x \in 1..Len(todo) : todo[x] = <<"await", id>> IN todo' = RemoveAt(todo, i)
               /\ UNCHANGED <<now, dev, busy, asked, win, meta, pend, lst, fut, cur, npkt>>

\* finally the regular handler of the endpoint gets the message
Handler(d, sep, cl, tsn) ==
    /\ cur.stage = "listeners" /\ NextUp(cur.p, cur.todo) = <<>>
    /\ cur.p.d = d /\ cur.p.sep = sep /\ cur.p.cl = cl /\ cur.p.tsn = tsn
    /\ cur' = [stage |-> "end", p |-> cur.p]
    /\ UNCHANGED <<now, dev, busy, asked, win, meta, pend, lst, fut, npkt, todo>>

\* reception is over: it returned normally
RecvEnd ==
    /\ \/ cur.stage = "end" /\ UNCHANGED <<busy, asked>>
       \/ /\ cur.stage = "afterquirk"
          /\ IF Init0(cur.p.d) \/ busy[cur.p.d] THEN UNCHANGED <<busy, asked>> ELSE StartInterview(cur.p.d)
    /\ cur' = NoPkt
    /\ UNCHANGED <<now, dev, win, meta, pend, lst, fut, npkt, todo>>

\* what everybody can see of the devices afterwards
Visible(snap) == \A d \in Devs :
    /\ snap[d].busy = busy[d]
    /\ snap[d].meta = meta[d]
    /\ snap[d].init = Init0(d)
    /\ {snap[d].eps[i] : i \in 1..Len(snap[d].eps)} = DOMAIN dev[d].eps
Quiet(t, snap) == /\ Idle /\ t >= now /\ now' = t /\ todo = <<>> /\ Visible(snap)
                  /\ UNCHANGED <<dev, busy, asked, win, meta, pend, lst, fut, cur, npkt, todo>>

\* ---- in the background ----------------------------------------------------------------------------------
Discover(src, t) == /\ Contains(todo, <<"discover", src>>) /\ t >= now /\ now' = t
                    /\ LET i == CHOOSE x \in 1..Len(todo) : todo[x] = <<"discover", src>> IN todo' = RemoveAt(todo, i)
                    /\ UNCHANGED <<dev, busy, asked, win, meta, pend, lst, fut, cur, npkt>>
\* an interview asks something; it repeats itself only after a timeout, unless it is started anew
Asks(d, t) == /\ d \in Devs /\ busy[d] /\ t >= now /\ now' = t
              /\ asked[d] = -1 \/ t >= asked[d] + 4990
              /\ asked' = [asked EXCEPT ![d] = t]
              /\ UNCHANGED <<dev, busy, win, meta, pend, lst, fut, cur, npkt, todo>>
InterviewFailed(d, t) == /\ d \in Devs /\ busy[d] /\ (asked[d] # -1 \/ Init0(d)) /\ t >= now /\ now' = t
                         /\ busy' = [busy EXCEPT ![d] = FALSE] /\ asked' = [asked EXCEPT ![d] = -1]
                         /\ UNCHANGED <<dev, win, meta, pend, lst, fut, cur, npkt, todo>>

\* ---- users: requests and listeners -------------------------------------------------------------------
Ask(id, d, tsn, t) == /\ d \in Devs /\ t >= now /\ now' = t /\ tsn \notin DOMAIN pend[d]
                      /\ pend' = [pend EXCEPT ![d] = (tsn :> <<id, "open", 0>>) @@ @]
                      /\ UNCHANGED <<dev, busy, asked, win, meta, lst, fut, cur, npkt, todo>>
Done(id, d, tsn, kind, n, t) ==
    /\ d \in Devs /\ tsn \in DOMAIN pend[d] /\ t >= now /\ now' = t
    /\ LET e == pend[d][tsn] IN
       /\ e[1] = id
       /\ kind = (CASE e[2] = "ok" -> "reply" [] e[2] = "bad" -> "parse_error" [] OTHER -> "timeout")
       /\ kind = "reply" => n = e[3]
    /\ pend' = [pend EXCEPT ![d] = [x \in DOMAIN @ \ {tsn} |-> @[x]]]
    /\ UNCHANGED <<dev, busy, asked, win, meta, lst, fut, cur, npkt, todo>>
Register(id, target, kind, match) ==
    /\ Free /\ lst' = Append(lst, [id |-> id, target |-> target, kind |-> kind, match |-> match])
    /\ fut' = (id :> 0) @@ fut
    /\ UNCHANGED <<now, dev, busy, asked, win, meta, pend, cur, npkt, todo>>
Unregister(id) ==
    /\ Free /\ lst' = SelectSeq(lst, LAMBDA r : r.id # id)
    /\ UNCHANGED <<now, dev, busy, asked, win, meta, pend, fut, cur, npkt, todo>>
\* the waiter sees its message / gives up
Resolved(id, n) == /\ id \in DOMAIN fut /\ n # 0 /\ fut[id] = n
                   /\ fut' = [fut EXCEPT ![id] = -1] /\ UNCHANGED <<now, dev, busy, asked, win, meta, pend, lst, cur, npkt, todo>>
\* a listener whose future its owner has cancelled takes no messages
GiveUp(id) == /\ id \in DOMAIN fut /\ fut[id] = 0
              /\ fut' = [fut EXCEPT ![id] = -1] /\ UNCHANGED <<now, dev, busy, asked, win, meta, pend, lst, cur, npkt, todo>>
\* nobody that has been served is left waiting
Served == \A id \in DOMAIN fut : fut[id] <= 0
Settled(t, snap) == Quiet(t, snap) /\ Served

\* ---- invariants ----------------------------------------------------------------------------------------
TypeOK == \A d \in Devs : \A w1, w2 \in win[d] : w1[1] = w2[1] => w1 = w2
=============================================================================
