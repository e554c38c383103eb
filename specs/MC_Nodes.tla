------------------------------- MODULE MC_Nodes -------------------------------
EXTENDS Nodes
CONSTANTS MaxT, MaxObj, Nn, Kinds, Rich
Nwks == {1, 2}
Times == {now, now + 1} \cup {out[o].dl : o \in {q \in Objs : out[q] # NoReq}} \cup {iv[o].at : o \in {q \in Objs : iv[q].at > now}} \cup {r.dl : r \in ToSet(rem)}
Fresh == Cardinality(Objs) + 1
Data(o) == CASE out[o].what = "desc" -> {"router", "end"}
             [] out[o].what = "eps" -> {<<1>>}
             [] out[o].what = "simple" -> {[st |-> "ok", basic |-> TRUE, groups |-> TRUE]} \cup
                                       (IF Rich THEN {[st |-> "inactive", basic |-> FALSE, groups |-> FALSE]} ELSE {})
             [] out[o].what = "read" -> [out[o].attrs -> IF Rich THEN {"m", "-"} ELSE {"m"}]
             [] OTHER -> {0}
MNext ==
  /\ \/ \E t \in Times : t <= MaxT /\ (
       \/ \E n \in Nn, w \in Nwks, r \in BOOLEAN :
            Join(n, w, r, IF ~Known(n) \/ BeingRemoved(tab[n]) THEN Fresh ELSE tab[n], t)
       \/ \E n \in Nn : Traffic(n, t) \/ RemoveNode(n, <<>>, t)
       \/ \E o \in Objs : \/ LET x == Norm(obj[o], Pos(o)) IN
                               x[2].ph # "end" /\ 
                               Ask(o, obj[o].nwk, IF x[2].ph = "model" THEN "read" ELSE x[2].ph,
                                   IF x[2].ph \in {"simple", "model"} THEN x[1].eps[x[2].i].id ELSE 0,
                                   IF x[2].ph = "model" THEN Missing(x[1].eps[x[2].i], Reads[x[2].k]) ELSE {}, 1, t)
                          \/ gs[o] # <<>> /\ AskGroups(o, obj[o].nwk, Head(gs[o]).id, 1, t)
                          \/ AskLeave(o, obj[o].nwk, obj[o].n, 1, t)
                          \/ out[o] # NoReq /\ ((\E k \in Kinds : SendFailed(o, 1, k, t)) \/ \E d \in Data(o) : Reply(o, 1, "ok", d, t)))
     \/ \E i \in 1..Len(due) : Announced(due[i][1], due[i][2], now)
     \/ \E o \in Objs : (out[o] # NoReq /\ Expire(o)) \/ Complete(o)
     \/ \E i \in 1..Len(rem) : RemovalTimeout(i)
MSpec == NInit /\ [][MNext]_nvars
Small == Cardinality(Objs) <= MaxObj /\ Len(rem) <= 1 /\ now <= MaxT
Bounded == \A o \in Objs : iv[o].tries <= Tries
\* announced as complete only after node descriptor and all endpoints are known
CompleteIsComplete == \A i \in 1..Len(due) : due[i][1] = "initialized" =>
                        LET d == obj[due[i][2]] IN d.desc # "none" /\ \A k \in 1..Len(d.eps) : d.eps[k].st # "new"
\* what was learned is never forgotten
KeepsWhatItKnows == [][\A o \in Objs : /\ obj[o].desc # "none" => obj'[o].desc = obj[o].desc
                                       /\ \A k \in 1..Len(obj[o].eps) : obj[o].eps[k].st # "new" => obj'[o].eps[k].st = obj[o].eps[k].st]_nvars
\* an interview only ends without success after its last attempt, by removal, or by something unexpected
FailsAfterAllTries == [][\A o \in Objs : <<"failed", o>> \in ToSet(due') \ ToSet(due) => iv[o].tries <= 1 \/ "crash" \in Kinds]_nvars
\* a node leaves the table only by a removal that was asked for
LeavesTableByRemoval == [][\A n \in DOMAIN tab : n \notin DOMAIN tab' => \E i \in 1..Len(rem) : rem[i].o = tab[n]]_nvars
=============================================================================
