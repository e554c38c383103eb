----------------------------- MODULE MC_Reception -----------------------------
(* two devices (one complete, one of which only the endpoints' existence is known), one unknown *)
EXTENDS Reception
VARIABLE hist    \* packets that reached the processing stage: <<device, key, time>>
Ds == [a |-> [eps |-> (1 :> {0, 6}), ready |-> TRUE, desc |-> TRUE],
       b |-> [eps |-> (1 :> {0, 6}), ready |-> FALSE, desc |-> FALSE]]
Pkt(d, k, cl, body, reply, dep) ==
    [d |-> d, nwk |-> TRUE, src |-> 7, key |-> k, sep |-> IF dep = 0 THEN 0 ELSE 1, dep |-> dep, cl |-> cl, hdr |-> body # "trunc",
     body |-> body, reply |-> reply, tsn |-> 100, cls |-> k, gen |-> k, val |-> 1, ts |-> 5, lqi |-> -1, rssi |-> -1, t |-> 0]
Base == {Pkt("a", "x", 6, "ok", FALSE, 1), Pkt("a", "y", 6, "ok", TRUE, 1), Pkt("a", "z", 9, "ok", FALSE, 1),
         Pkt("b", "x", 6, "ok", FALSE, 1), Pkt("b", "x", 0, "bad", TRUE, 1), Pkt("?", "x", 6, "ok", FALSE, 1)}
Times == {0, 4, 10, 14}
Regs == {<<1, "any", "callback", {"x", "y"}>>, <<2, "a", "future", {"x"}>>, <<3, "a", "callback", {"x"}>>}
H == hist' = IF meta' # meta /\ win' # win
             THEN hist \cup {<<cur.p.d, cur.p.key, cur.p.t>>} ELSE hist
MNext ==
  /\ \/ \E p \in Base, t \in Times : Recv([p EXCEPT !.t = t, !.ts = npkt])
     \/ cur.stage \in {"announce", "quirk"} /\ (Announce(cur.p.d, cur.p.key) \/ Quirk(cur.p.d, cur.p.key, FALSE, <<>>))
     \/ \E i \in 1..3 : Take(i) \/ Callback(i, npkt) \/ Unregister(i)
     \/ cur.stage = "incallback" /\ CallbackEnd("ok", 1)
     \/ cur.stage = "listeners" /\ Handler(cur.p.d, cur.p.sep, cur.p.cl, cur.p.tsn)
     \/ RecvEnd
     \/ Discover(7, now) \/ \E d \in Devs : Asks(d, now) \/ InterviewFailed(d, now)
     \/ "a" \in Devs /\ (Ask(1, "a", 100, now) \/ \E k \in {"reply", "timeout"} : Done(1, "a", 100, k, IF 100 \in DOMAIN pend["a"] THEN pend["a"][100][3] ELSE 0, now))
     \/ \E r \in Regs : r[1] \notin DOMAIN fut /\ Register(r[1], r[2], r[3], r[4])
  /\ H
MSpec == PInit(Ds, [d \in DOMAIN Ds |-> FALSE]) /\ hist = {} /\ [][MNext]_<<pvars, hist>>
Smaller == npkt <= 3 /\ Cardinality(DOMAIN fut) <= 1 /\ Len(todo) <= 1
Small == npkt <= 3 /\ Cardinality(DOMAIN fut) <= 2 /\ Len(todo) <= 1
\* within the window a packet is processed once
NoDuplicates == \A x, y \in hist : x[1] = y[1] /\ x[2] = y[2] /\ x # y => (x[3] >= y[3] + Window \/ y[3] >= x[3] + Window)
\* a device that is complete is never interviewed because of traffic
NotReinterviewed == \A d \in Devs : Init0(d) => ~busy[d]
\* replies that belong to a request are shown to nobody else
ToRequestOnly == cur.stage \in {"listeners", "incallback"} => ~Answers(cur.p.d, cur.p) \/ FALSE
=============================================================================
