-------------------------------- MODULE MC_Zcl --------------------------------
(* Two attributes and a constant one, a few operations of every kind with every kind of answer. *)
EXTENDS Zcl
CONSTANTS MaxOps, MaxMsgs
VARIABLES truth, yes, no   \* what the device (or the user) said last about an attribute's value; said to (not) have it
mvars == <<zvars, truth, yes, no>>
Cfg == [custom |-> TRUE, mall |-> FALSE, consts |-> <<[id |-> 9, val |-> "nine"]>>, mspec |-> <<2>>, manuf |-> 77,
        local |-> <<[cl |-> 0, id |-> 1, bytes |-> <<32, 8>>]>>, named |-> <<1, 2>>]
MCInit == Init0(Cfg) /\ truth = Empty /\ yes = {} /\ no = {}
A(id, v) == [id |-> id, kind |-> "ok", bytes |-> <<id>>, val |-> v, fits |-> TRUE]
Op(op, ids, allow, only, attrs) == [op |-> op, ids |-> ids, allow |-> allow, only |-> only, manuf |-> -1, attrs |-> attrs]
Menu == { Op("read", <<1, 2>>, FALSE, FALSE, <<>>), Op("read", <<1, 9>>, TRUE, FALSE, <<>>), Op("read", <<1, 2>>, FALSE, TRUE, <<>>),
          Op("write", <<>>, FALSE, FALSE, <<A(1, "w"), A(2, "w")>>), Op("conf", <<>>, FALSE, FALSE, <<A(1, ""), A(2, "")>>) }
Rec(id, st, v) == [id |-> id, st |-> st, val |-> v, fits |-> TRUE]
Rs(kind, recs, st) == [kind |-> kind, recs |-> recs, status |-> st]
Answers(p) == {Rs("default", <<>>, 129)} \cup
    (IF p.o.op = "read" THEN {Rs("recs", <<Rec(1, 0, "r")>>, 0), Rs("recs", <<Rec(1, UNSUPPORTED, "")>>, 0), Rs("recs", <<Rec(2, 0, "r"), Rec(1, 136, "")>>, 0)}
     ELSE {Rs("recs", <<Rec(-1, 0, "")>>, 0), Rs("recs", <<Rec(2, 136, "")>>, 0), Rs("recs", <<Rec(1, UNSUPPORTED, ""), Rec(2, 136, "")>>, 0)})
N == Cardinality(DOMAIN ops)
Msgs == { [kind |-> "report", ep |-> 1, cl |-> 0, here |-> TRUE, client |-> FALSE, ddr |-> d, tsn |-> 5, cmd |-> 10, recs |-> <<[id |-> 2, val |-> "p", fits |-> TRUE]>>, ids |-> <<>>, updating |-> FALSE] : d \in BOOLEAN }
        \cup { [kind |-> "readreq", ep |-> 1, cl |-> 0, here |-> FALSE, client |-> FALSE, ddr |-> FALSE, tsn |-> 6, cmd |-> 0, recs |-> <<>>, ids |-> <<1, 2>>, updating |-> FALSE] }
VARIABLE msgs
Same == UNCHANGED <<truth, yes, no>>
\* what an operation that has been answered says, told independently of the way the cache is kept
Says(p) == LET a == p.ans IN
    IF p.o.op = "read" THEN [id \in {r.id : r \in {x \in Range(p.consts) \cup Range(a.recs) : x.st = 0}} |-> IF id = 9 THEN "nine" ELSE "r"]
    ELSE IF p.o.op = "write" /\ a.kind = "recs" THEN [id \in {x.id : x \in Range(p.o.attrs)} \ {r.id : r \in {x \in Range(a.recs) : x.st # 0}} |-> "w"] ELSE Empty
Do == \/ N < MaxOps /\ \E o \in Menu : Call(N + 1, o) /\ Same /\ UNCHANGED msgs
      \/ \E i \in DOMAIN ops : UNCHANGED msgs /\
            \/ (\A j \in DOMAIN ops : ops[j].phase # "sent") /\ Sent(i, Request(ops[i].o, ops[i].ids)) /\ Same
            \/ Radio(i, TRUE) /\ Same
            \/ Radio(i, FALSE) /\ Same
            \/ TimedOut(i) /\ Same
            \/ ops[i].phase = "sent" /\ \E a \in Answers(ops[i]) : Answer(i, a) /\ Same
            \/ /\ Resume(i) /\ truth' = Says(ops[i]) @@ truth
               /\ LET p == ops[i] has == IF p.o.op = "write" THEN {} ELSE {r.id : r \in {x \in Range(p.ans.recs) : x.st = UNSUPPORTED}}
                      had == IF p.o.op = "read" THEN DOMAIN Says(p)
                             ELSE IF p.o.op = "conf" /\ p.ans.kind = "recs" /\ Len(p.ans.recs) = 1 /\ p.ans.recs[1].st = 0 THEN {1, 2} ELSE {} IN
                  yes' = (yes \cup had) \ has /\ no' = (no \cup has) \ had
            \/ ops[i].phase = "done" /\ Same /\ LET ok == ops[i].ok bad == ops[i].bad read == ops[i].out = "ok" /\ ops[i].o.op = "read" IN
               Result(i, ops[i].out, IF read THEN SetToSeq({<<id, ok[id]>> : id \in DOMAIN ok}) ELSE <<>>, IF read THEN SetToSeq({<<id, bad[id]>> : id \in DOMAIN bad}) ELSE <<>>)
      \/ msgs < MaxMsgs /\ msgs' = msgs + 1 /\ \E m \in Msgs : Received(msgs + 1, m) /\ truth' = (IF m.kind = "report" THEN (2 :> "p") @@ truth ELSE truth) /\ UNCHANGED <<yes, no>>
      \/ todo # <<>> /\ Event(Head(todo)) /\ Same /\ UNCHANGED msgs
      \/ \E n \in DOMAIN due : Answered(due[n].ep, due[n].ep, due[n].cl, due[n].data) /\ Same /\ UNCHANGED msgs
MCSpec == MCInit /\ msgs = 0 /\ [][Do]_<<mvars, msgs>>
\* the cache holds what was said last, and nothing else
CacheIsTruth == [id \in DOMAIN cache |-> cache[id].val] = truth
MarkedAsSaid == unsup = no
\* an ordinary default response answers everything that was asked on the wire with its status
RejectedReads == \A i \in DOMAIN ops : ops[i].phase \in {"done", "told"} /\ ops[i].o.op = "read" /\ ops[i].out = "ok" /\ ops[i].ans.kind = "default"
                    => \A id \in Range(ops[i].ids) : ops[i].bad[id] = 129
\* no answers to what needs none
OwedOnce == \A n \in DOMAIN due : due[n].data[2] \in {5, 6}
=============================================================================
