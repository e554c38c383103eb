------------------------------ MODULE Nodes_Trace ------------------------------
EXTENDS Nodes, TraceKit
tvars == <<nvars, tid, l>>
TInit == TraceKitInit /\ NInit
HasT == "t" \in DOMAIN Ev
\* timeouts and completions are not visible themselves: they happen when they are due
Hidden == /\ More /\ Silent /\ HasT
          /\ \/ \E o \in Objs : out[o] # NoReq /\ out[o].dl <= Ev.t /\ Expire(o)
             \/ \E i \in 1..Len(rem) : rem[i].dl <= Ev.t /\ RemovalTimeout(i)
             \/ \E o \in Objs : Complete(o)
\* an object loaded with what an earlier run has learned
Preload == /\ IsEvent("known") /\ now = 0
           /\ obj' = (Ev.o :> [n |-> Ev.n, nwk |-> Ev.nwk, desc |-> Ev.desc, model |-> Ev.model, manuf |-> Ev.manuf,
                               eps |-> [i \in 1..Len(Ev.eps) |-> [id |-> Ev.eps[i].id, st |-> Ev.eps[i].st, basic |-> Ev.eps[i].basic,
                                                                 groups |-> Ev.eps[i].groups, cman |-> Ev.eps[i].cman, cmod |-> Ev.eps[i].cmod]]]) @@ obj
           /\ tab' = (Ev.n :> Ev.o) @@ tab /\ iv' = (Ev.o :> Off) @@ iv /\ gs' = (Ev.o :> <<>>) @@ gs /\ out' = (Ev.o :> NoReq) @@ out
           /\ UNCHANGED <<now, rem, par, due>>
TNext == \/ Preload
         \/ IsEvent("join") /\ Join(Ev.n, Ev.nwk, Ev.rejoin, Ev.o, Ev.t)
         \/ IsEvent("traffic") /\ Traffic(Ev.n, Ev.t)
         \/ IsEvent("leaves") /\ Leaves(Ev.n, Ev.t)
         \/ IsEvent("announced") /\ Announced(Ev.what, Ev.o, Ev.t)
         \/ IsEvent("remove") /\ RemoveNode(Ev.n, Ev.parents, Ev.t)
         \/ IsEvent("ask") /\ Ask(Ev.o, Ev.nwk, Ev.what, Ev.ep, ToSet(Ev.attrs), Ev.id, Ev.t)
         \/ IsEvent("groups") /\ AskGroups(Ev.o, Ev.nwk, Ev.ep, Ev.id, Ev.t)
         \/ IsEvent("leave") /\ AskLeave(Ev.o, Ev.nwk, Ev.n, Ev.id, Ev.t)
         \/ IsEvent("send_failed") /\ SendFailed(Ev.o, Ev.id, Ev.kind, Ev.t)
         \/ IsEvent("reply") /\ Reply(Ev.o, Ev.id, Ev.kind, Ev.data, Ev.t)
         \/ IsEvent("quiet") /\ Quiet(Ev.t, Ev.tab)
         \/ Hidden
TStep == TNext /\ OneRecord' /\ OnlyTable' /\ NotWhileRemoved'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
