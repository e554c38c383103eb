------------------------------ MODULE Groups_Trace ------------------------------
EXTENDS Groups, TraceKit
trvars == <<gvs, tid, l>>
TInit == tid \in 1..NTraces /\ l = 1 /\ Init0
\* the request whose name is unknown to the group: whether the caller named it is part of the call
Named(i) == \E k \in 1..(l - 1) : Traces[tid][k].ev = "call" /\ Traces[tid][k].id = i /\ Traces[tid][k].named
Hidden == /\ More /\ Silent
          /\ \E i \in DOMAIN ops : Resume(i, Named(i)) \/ ("t" \in DOMAIN Ev /\ Expire(i, Ev.t))
Going == More /\ Silent /\ \E d \in leaving : Gone(d)
TNext == \/ IsEvent("device") /\ Device(Ev.eps)
         \/ IsEvent("add_group") /\ AddGroup(Ev.gid, Ev.name, Ev.quiet)
         \/ IsEvent("add_member") /\ AddMember(Ev.gid, Ev.ep, Ev.quiet)
         \/ IsEvent("remove_member") /\ RemoveMember(Ev.gid, Ev.ep, Ev.quiet)
         \/ IsEvent("pop") /\ PopGroup(Ev.gid, Ev.known)
         \/ IsEvent("update") /\ Update(Ev.ep, Range(Ev.gids))
         \/ IsEvent("leaving") /\ Leaving(Ev.dev)
         \/ IsEvent("announce") /\ Announce(Ev.a)
         \/ IsEvent("call") /\ Call(Ev.id, Ev.kind, Ev.single, Ev.todo, Ev.gid, Ev.name)
         \/ IsEvent("cancelled") /\ Cancel(Ev.id)
         \/ IsEvent("sent") /\ Sent(Ev.id, Ev.ep, Ev.cmd, Ev.gid, Ev.name)
         \/ IsEvent("radio") /\ Radio(Ev.id, Ev.ok, Ev.t)
         \/ IsEvent("answer") /\ Answer(Ev.id, Ev.ep, [kind |-> Ev.kind, status |-> Ev.status, groups |-> Range(Ev.groups)])
         \/ IsEvent("result") /\ Result(Ev.id, Ev.out)
         \/ IsEvent("obs") /\ Obs(Ev.groups, Ev.member, Range(Ev.known))
         \/ IsEvent("end") /\ End
         \/ Hidden \/ Going
TStep == TNext /\ Mutual'
TSpec == TInit /\ [][TStep]_trvars
=============================================================================
