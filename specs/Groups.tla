------------------------------- MODULE Groups -------------------------------
(* Group membership, kept on both sides: the group's members and the groups an endpoint lists.    *)
(* Membership changes by the library's user, or as the answer of a device to a request to join,   *)
(* to leave, or to list its groups.  Every change must be announced once (`due`).                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT Timeout
VARIABLES
  eps,     \* endpoint -> [dev, able]   (able: has a groups cluster)
  groups,  \* group id -> [name, members]
  member,  \* endpoint -> groups that it lists
  ops,     \* requests: id -> [kind, todo: endpoints, gid, name, phase, ep, radio, ans, out]
  due,     \* announcements that must come next: set of [what, gid, ep]
  gone, leaving  \* devices that are not known any more; that are being removed
gvs == <<eps, groups, member, ops, due, gone, leaving>>

Init0 == gone = {} /\ leaving = {} /\ eps = [x \in {} |-> 0] /\ groups = [x \in {} |-> 0] /\ member = [x \in {} |-> {}] /\ ops = [x \in {} |-> 0] /\ due = {}

A(what, gid, ep) == [what |-> what, gid |-> gid, ep |-> ep]
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
NoName(gid) == "-"   \* a group that nobody named

\* ---- changes, on a state [g, m, d] --------------------------------------------------------------------------
Now == [g |-> groups, m |-> member, d |-> due]
AddG(s, gid, name, quiet) == IF gid \in DOMAIN s.g THEN s
                             ELSE [s EXCEPT !.g = (gid :> [name |-> name, members |-> {}]) @@ @,
                                            !.d = IF quiet THEN @ ELSE @ \cup {A("added", gid, "")}]
Join(s, gid, ep, quiet) == IF ep \in s.g[gid].members THEN s
                           ELSE [s EXCEPT !.g = [@ EXCEPT ![gid].members = @ \cup {ep}], !.m = [@ EXCEPT ![ep] = @ \cup {gid}],
                                          !.d = IF quiet THEN @ ELSE @ \cup {A("member_added", gid, ep)}]
Leave(s, gid, ep, quiet) == IF gid \notin DOMAIN s.g \/ ep \notin s.g[gid].members THEN s
                            ELSE [s EXCEPT !.g = [@ EXCEPT ![gid].members = @ \ {ep}], !.m = [@ EXCEPT ![ep] = @ \ {gid}],
                                           !.d = IF quiet THEN @ ELSE @ \cup {A("member_removed", gid, ep)}]
RECURSIVE LeaveAll(_, _)   \* pairs of group and endpoint
LeaveAll(s, ps) == IF ps = {} THEN s ELSE LET p == CHOOSE x \in ps : TRUE IN LeaveAll(Leave(s, p[1], p[2], FALSE), ps \ {p})
RECURSIVE JoinAll(_, _)
JoinAll(s, ps) == IF ps = {} THEN s ELSE LET p == CHOOSE x \in ps : TRUE IN JoinAll(Join(AddG(s, p[1], NoName(p[1]), FALSE), p[1], p[2], FALSE), ps \ {p})
Pop(s, gid) == LET t == LeaveAll(s, {gid} \X s.g[gid].members) IN [t EXCEPT !.g = Drop(@, {gid}), !.d = @ \cup {A("removed", gid, "")}]
Sync(s, ep, gids) == JoinAll(LeaveAll(s, {<<g, ep>> : g \in s.m[ep] \ gids}), {<<g, ep>> : g \in gids \ s.m[ep]})
Become(s) == groups' = s.g /\ member' = s.m /\ due' = s.d

\* ---- from outside --------------------------------------------------------------------------------------------
Quiet == due = {}
Device(es) == /\ Quiet
              /\ eps' = [e \in {x.ep : x \in Range(es)} |-> CHOOSE x \in Range(es) : x.ep = e] @@ eps
              /\ member' = [e \in {x.ep : x \in Range(es)} |-> {}] @@ member
              /\ UNCHANGED <<groups, ops, due, gone, leaving>>
AddGroup(gid, name, quiet) == Quiet /\ Become(AddG(Now, gid, name, quiet)) /\ UNCHANGED <<eps, ops, gone, leaving>>
AddMember(gid, ep, quiet) == Quiet /\ gid \in DOMAIN groups /\ Become(Join(Now, gid, ep, quiet)) /\ UNCHANGED <<eps, ops, gone, leaving>>
RemoveMember(gid, ep, quiet) == Quiet /\ gid \in DOMAIN groups /\ Become(Leave(Now, gid, ep, quiet)) /\ UNCHANGED <<eps, ops, gone, leaving>>
\* removing a group that is unknown fails unless the caller said what to return then
PopGroup(gid, known) == /\ Quiet /\ known = (gid \in DOMAIN groups)
                        /\ Become(IF known THEN Pop(Now, gid) ELSE Now) /\ UNCHANGED <<eps, ops, gone, leaving>>
Update(ep, gids) == Quiet /\ Become(Sync(Now, ep, gids)) /\ UNCHANGED <<eps, ops, gone, leaving>>
\* a device that has gone is in no group any more
Leaving(dev) == Quiet /\ leaving' = leaving \cup {dev} /\ UNCHANGED <<eps, groups, member, ops, due, gone>>
Gone(dev) == /\ Quiet /\ dev \in leaving
             /\ Become(LeaveAll(Now, {x \in (DOMAIN groups) \X (DOMAIN eps) : eps[x[2]].dev = dev}))
             /\ gone' = gone \cup {dev} /\ leaving' = leaving \ {dev}
             /\ UNCHANGED <<eps, ops>>
Announce(a) == /\ a \in due
               /\ (a.what = "member_added" => A("added", a.gid, "") \notin due)
               /\ (a.what = "removed" => \A x \in due : ~(x.what = "member_removed" /\ x.gid = a.gid))
               /\ due' = due \ {a} /\ UNCHANGED <<eps, groups, member, ops, gone, leaving>>

\* ---- requests ---------------------------------------------------------------------------------------------------
NoAns == [kind |-> "none", status |-> 0, groups |-> {}]
\* go on with the next endpoint that has a groups cluster; without one the request ends
Able(todo) == SelectSeq(todo, LAMBDA e : eps[e].able)
First(o) == IF Able(o.todo) = <<>> THEN [o EXCEPT !.phase = "done", !.out = IF o.single /\ o.kind # "scan" THEN "1" ELSE "ok"]
            ELSE [o EXCEPT !.todo = Tail(Able(@)), !.ep = Able(o.todo)[1], !.phase = "queued", !.ans = NoAns, !.radio = FALSE]
\* single: one endpoint, the caller gets the status; otherwise all endpoints of a device in turn
Call(i, kind, single, todo, gid, name) ==
    /\ Quiet /\ i \notin DOMAIN ops
    /\ ops' = (i :> First([kind |-> kind, single |-> single, todo |-> todo, gid |-> gid, name |-> name, phase |-> "", ep |-> "", radio |-> FALSE, at |-> 0,
                           ans |-> NoAns, out |-> ""])) @@ ops
    /\ UNCHANGED <<eps, groups, member, due, gone, leaving>>
\* a membership scan of a device replaces the one under way
Cancel(i) == /\ Quiet /\ i \in DOMAIN ops
             /\ IF ops[i].phase = "told" THEN ops' = ops
                ELSE IF ops[i].phase = "done" THEN ops' \in {ops, [ops EXCEPT ![i].out = "CancelledError"]}  \* nothing to ask: it may not have begun
                ELSE ops' = [ops EXCEPT ![i].phase = "done", ![i].out = "CancelledError"]
             /\ UNCHANGED <<eps, groups, member, due, gone, leaving>>
CmdOf == [add |-> 0, remove |-> 3, scan |-> 2]
Sent(i, ep, cmd, gid, name) ==
    /\ Quiet /\ i \in DOMAIN ops /\ ops[i].phase = "queued"
    /\ ep = ops[i].ep /\ cmd = CmdOf[ops[i].kind]
    /\ (cmd # 2 => gid = ops[i].gid) /\ (cmd = 0 => name = ops[i].name)
    /\ ops' = [ops EXCEPT ![i].phase = "sent"]
    /\ UNCHANGED <<eps, groups, member, due, gone, leaving>>
\* a request that failed: scans shrug it off, the others tell their caller
Fail(o, why) == IF o.kind = "scan" THEN First(o) ELSE [o EXCEPT !.phase = "done", !.out = why]
Radio(i, ok, t) ==
    /\ Quiet /\ i \in DOMAIN ops
    /\ ops' = IF ops[i].phase # "sent" THEN ops
              ELSE IF ok THEN [ops EXCEPT ![i].radio = TRUE, ![i].at = t, ![i].phase = IF ops[i].ans.kind = "none" THEN "sent" ELSE "resuming"]
              ELSE [ops EXCEPT ![i] = Fail(ops[i], "DeliveryError")]
    /\ UNCHANGED <<eps, groups, member, due, gone, leaving>>
Answer(i, ep, a) ==
    /\ Quiet /\ i \in DOMAIN ops
    /\ ops' = IF ops[i].phase = "sent" /\ ops[i].ep = ep /\ ops[i].ans.kind = "none"
              THEN [ops EXCEPT ![i].ans = a, ![i].phase = IF ops[i].radio THEN "resuming" ELSE "sent"] ELSE ops
    /\ UNCHANGED <<eps, groups, member, due, gone, leaving>>
Expire(i, t) ==
    /\ Quiet /\ i \in DOMAIN ops /\ ops[i].phase = "sent" /\ ops[i].radio /\ t >= ops[i].at + Timeout
    /\ ops' = [ops EXCEPT ![i] = Fail(ops[i], "TimeoutError")]
    /\ UNCHANGED <<eps, groups, member, due, gone, leaving>>
\* the device's answer decides: success, or that it already was (never was) a member
Good(o) == o.ans.kind = "rsp" /\ o.ans.status \in {0} \cup (IF o.kind = "add" THEN {138} ELSE {139})
Effect(o) == IF o.kind = "scan" THEN (IF o.ans.kind = "rsp" THEN Sync(Now, o.ep, o.ans.groups) ELSE Now)
             ELSE IF ~Good(o) THEN Now
             ELSE IF o.kind = "add" THEN Join(AddG(Now, o.gid, IF o.named THEN o.name ELSE NoName(o.gid), FALSE), o.gid, o.ep, FALSE)
             ELSE Leave(Now, o.gid, o.ep, FALSE)
Resume(i, named) ==
    /\ Quiet /\ i \in DOMAIN ops /\ ops[i].phase = "resuming"
    /\ LET o == [named |-> named] @@ ops[i] IN
       /\ Become(Effect(o))
       /\ ops' = [ops EXCEPT ![i] = IF @.single THEN [@ EXCEPT !.phase = "done", !.out = IF o.kind = "scan" THEN "ok" ELSE ToString(o.ans.status)]
                                    ELSE First(@)]
    /\ UNCHANGED <<eps, gone, leaving>>
Result(i, out) == /\ Quiet /\ i \in DOMAIN ops /\ ops[i].phase = "done" /\ ops[i].out = out
                  /\ ops' = [ops EXCEPT ![i].phase = "told"]
                  /\ UNCHANGED <<eps, groups, member, due, gone, leaving>>
\* what is seen: the groups with their members, and what the endpoints list
Obs(gs, ms, known) ==
               /\ Quiet /\ known = {eps[e].dev : e \in DOMAIN eps} \ gone
               /\ {g.gid : g \in Range(gs)} = DOMAIN groups
               /\ \A g \in Range(gs) : g.name = groups[g.gid].name /\ Range(g.members) = groups[g.gid].members
               /\ \A m \in Range(ms) : Range(m.groups) = member[m.ep]
               /\ UNCHANGED gvs
End == Quiet /\ (\A i \in DOMAIN ops : ops[i].phase = "told") /\ UNCHANGED gvs

\* ---- properties ---------------------------------------------------------------------------------------------------
Mutual == \A e \in DOMAIN eps : member[e] = {g \in DOMAIN groups : e \in groups[g].members}
=============================================================================
