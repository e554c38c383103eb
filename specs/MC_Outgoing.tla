----------------------------- MODULE MC_Outgoing -----------------------------
(* A few calls of every shape over a router, a sleeping device and the coordinator. *)
EXTENDS Outgoing
CONSTANTS MaxCalls, MaxNow
VARIABLE sent   \* call -> packets sent for it
Devs == [r |-> [nwk |-> "0x0001", ieee |-> "r", desc |-> "router", relays |-> <<7, 8>>, zll |-> FALSE],
         e |-> [nwk |-> "0x0002", ieee |-> "e", desc |-> "end", relays |-> <<>>, zll |-> TRUE],
         c |-> [nwk |-> "0x0000", ieee |-> "c", desc |-> "none", relays |-> <<>>, zll |-> FALSE]]
Base(x, p) == [expect |-> x, ieee |-> FALSE, ack |-> -1, prio |-> p, timeout |-> Normal, sep |-> 1, tsn |-> -1]
Zc(x) == [expect |-> x, ieee |-> FALSE, ack |-> -1, prio |-> 0, timeout |-> Normal, sep |-> 1, tsn |-> -1, cl |-> 6, cmd |-> 1, general |-> FALSE,
          manuf |-> -1, client |-> FALSE, payload |-> <<>>, reply |-> FALSE]
Menu == { <<"zcl", "r", Zc(TRUE)>>, <<"zcl", "e", Zc(FALSE)>>,
          <<"permit", "r", [to |-> "dev", time |-> 1]>>, <<"permit", "c", [to |-> "all", time |-> 1]>>,
          <<"channel", "c", [chan |-> 12, num |-> 2]>>, <<"scan", "c", [body |-> <<0>>]>> }
MCInit == Init0([nwk |-> "0x0000", num |-> 0, me |-> <<1>>, ieee |-> "me", sr |-> TRUE, chan |-> 11, upd |-> 254], Devs) /\ sent = [i \in {} |-> 0]
N == Cardinality(Ids)
Idle == \E i \in Ids : ~Over(i)
Do == \/ \E m \in Menu : N < MaxCalls /\ (m[1] \in {"channel", "scan"} => \A i \in Ids : \A j \in 1..Len(C(i).plan) : C(i).plan[j].slot # "c")
                          /\ Call(N + 1, m[1], m[2], m[3], now) /\ sent' = ((N + 1) :> 0) @@ sent
      \/ \E i \in Ids : CanSend(i) /\ Sent(i, Real(Numbered(Cur(i).p, Next8(Last0(Cur(i).from)))), now) /\ sent' = [sent EXCEPT ![i] = @ + 1]
      \/ UNCHANGED sent /\ \E i \in Ids :
            \/ Radio(i, TRUE, now) \/ Radio(i, FALSE, now)
            \/ ~Over(i) /\ C(i).sub # "ready" /\ Cur(i).wait # -1 /\ ~C(i).got /\ Replied(i, now)
            \/ Finish(i) \/ TimedOut(i) \/ Slept(i) \/ (~Over(i) /\ Arrived(i))
            \/ ~Over(i) /\ Opened(i, Cur(i).ms, now)
            \/ \E c \in {11, 12} : Reloaded(i, c, now)
            \/ Over(i) /\ Result(i, IF C(i).res = "" THEN "ok" ELSE C(i).res, now)
            \/ N > 0 /\ now < MaxNow /\ Idle /\ Quiet(now + 1)
            \/ dev.r.nwk = "0x0001" /\ i = 1 /\ Changed("r", "nwk", "0x9999", 0, now)
MCSpec == MCInit /\ [][Do]_<<ovars, sent>>
Bounded == now <= MaxNow
\* a wait never outlasts its limit
NotLate == \A i \in Ids : ~Over(i) /\ C(i).sub = "waiting" => now <= C(i).since + Cur(i).wait
\* one packet for every step that sends, no more: none missing once the call has succeeded
OnePacketPerStep == \A i \in Ids :
    LET k == Cardinality({j \in 1..Len(C(i).plan) : C(i).plan[j].s = "send" /\ (j < C(i).at \/ (j = C(i).at /\ C(i).sub # "ready"))})
    IN (C(i).res = "" => sent[i] = k) /\ sent[i] <= Cardinality({j \in 1..Len(C(i).plan) : C(i).plan[j].s = "send"})
\* the call that changes the channel ends well only on the new channel
Moved == \A i \in Ids : LET p == C(i).plan IN (Over(i) /\ C(i).res = "" /\ p # <<>> /\ p[Len(p)].s = "reload") => cfg.chan = 12
=============================================================================
