------------------------------ MODULE MC_Groups ------------------------------
(* Two devices (one endpoint without a groups cluster), two groups, requests with every answer. *)
EXTENDS Groups
CONSTANTS MaxOps, MaxUser
VARIABLES n, u, told   \* told: what listeners believe: [groups, members]
mvars == <<gvs, n, u, told>>
E1 == [ep |-> "a1", dev |-> "a", able |-> TRUE]
E2 == [ep |-> "a2", dev |-> "a", able |-> FALSE]
E3 == [ep |-> "b1", dev |-> "b", able |-> TRUE]
Gids == {1, 2}
MCInit == Init0 /\ n = 0 /\ u = 0 /\ told = [g |-> {}, m |-> {}]
Same == UNCHANGED <<n, u, told>>
User(A1) == u < MaxUser /\ A1 /\ u' = u + 1 /\ UNCHANGED <<n, told>>
Answers(o) == {[kind |-> "default", status |-> 129, groups |-> {}]}
              \cup (IF o.kind = "scan" THEN {[kind |-> "rsp", status |-> 0, groups |-> g] : g \in SUBSET Gids}
                    ELSE {[kind |-> "rsp", status |-> s, groups |-> {}] : s \in {0, 1, 138, 139}})
Tell(a) == told' = CASE a.what = "added" -> [told EXCEPT !.g = @ \cup {a.gid}]
                     [] a.what = "removed" -> [told EXCEPT !.g = @ \ {a.gid}]
                     [] a.what = "member_added" -> [told EXCEPT !.m = @ \cup {<<a.gid, a.ep>>}]
                     [] OTHER -> [told EXCEPT !.m = @ \ {<<a.gid, a.ep>>}]
Here == DOMAIN eps \ {e \in DOMAIN eps : eps[e].dev \in gone \cup leaving}
Do == \/ DOMAIN eps = {} /\ Device(<<E1, E2, E3>>) /\ Same
      \/ DOMAIN eps # {} /\
         \/ \E g \in Gids : User(AddGroup(g, "x", FALSE)) \/ User(PopGroup(g, g \in DOMAIN groups))
         \/ \E g \in Gids, e \in Here : User(AddMember(g, e, FALSE)) \/ User(RemoveMember(g, e, FALSE))
         \/ \E e \in Here, s \in SUBSET Gids : User(Update(e, s))
         \/ \E d \in {"a"} \ (gone \cup leaving) : User(Leaving(d))
         \/ \E d \in leaving : Gone(d) /\ Same
         \/ \E a \in due : Announce(a) /\ Tell(a) /\ UNCHANGED <<n, u>>
         \/ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<u, told>>
            /\ \/ \E k \in {"add", "remove", "scan"}, e \in {"a1", "b1"} \cap Here : Call(n + 1, k, TRUE, <<e>>, 1, "")
               \/ \E k \in {"add", "scan"} : {"a1", "a2"} \subseteq Here /\ Call(n + 1, k, FALSE, <<"a1", "a2">>, 1, "")
         \/ \E i \in DOMAIN ops :
               \/ Sent(i, ops[i].ep, CmdOf[ops[i].kind], ops[i].gid, ops[i].name) /\ Same
               \/ Radio(i, TRUE, 0) /\ ~ops[i].radio /\ ops[i].phase = "sent" /\ Same
               \/ Radio(i, FALSE, 0) /\ ~ops[i].radio /\ ops[i].phase = "sent" /\ Same
               \/ ops[i].phase = "sent" /\ (\E a \in Answers(ops[i]) : Answer(i, ops[i].ep, a)) /\ Same
               \/ Expire(i, Timeout) /\ Same
               \/ Resume(i, TRUE) /\ Same
               \/ Result(i, ops[i].out) /\ Same
               \/ ops[i].kind = "scan" /\ ops[i].phase \in {"queued", "sent"} /\ Cancel(i) /\ Same
MCSpec == MCInit /\ [][Do]_mvars
\* whoever listens knows the groups and their members once everything has been told
ListenersKnow == due = {} => told = [g |-> DOMAIN groups, m |-> {x \in (DOMAIN groups) \X (DOMAIN eps) : x[2] \in groups[x[1]].members}]
NotOfTheGone == \A g \in DOMAIN groups : \A e \in groups[g].members : eps[e].dev \notin gone \/ \E i \in DOMAIN ops : eps[ops[i].ep].dev \in gone
\* a device's refusal changes nothing
Refusals == [][\A i \in DOMAIN ops : (ops[i].phase = "resuming" /\ ops'[i].phase # "resuming" /\ ops[i].ans.kind = "default") => groups' = groups]_mvars
=============================================================================
