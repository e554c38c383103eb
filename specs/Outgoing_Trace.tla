---------------------------- MODULE Outgoing_Trace ----------------------------
EXTENDS Outgoing, TraceKit
tvars == <<ovars, tid, l>>
TInit == /\ tid \in 1..NTraces /\ l = 2
         /\ Init0(Traces[tid][1].cfg, Traces[tid][1].dev)
HasT == "t" \in DOMAIN Ev
Hidden == /\ More /\ Silent /\ HasT
          /\ \E i \in Ids : \/ Finish(i)
                            \/ ~Over(i) /\ C(i).since <= Ev.t /\ Arrived(i)
                            \/ Deadline(i) # -1 /\ Deadline(i) <= Ev.t /\ (TimedOut(i) \/ Slept(i))
TNext == \/ IsEvent("call") /\ Call(Ev.id, Ev.kind, Ev.d, Ev.a, Ev.t)
         \/ IsEvent("sent") /\ Sent(Ev.id, Ev.p, Ev.t)
         \/ IsEvent("radio") /\ Radio(Ev.id, Ev.ok, Ev.t)
         \/ IsEvent("replied") /\ Replied(Ev.id, Ev.t)
         \/ IsEvent("opened") /\ Opened(Ev.id, Ev.ms, Ev.t)
         \/ IsEvent("reloaded") /\ Reloaded(Ev.id, Ev.chan, Ev.t)
         \/ IsEvent("result") /\ Result(Ev.id, Ev.what, Ev.t)
         \/ IsEvent("changed") /\ Changed(Ev.d, Ev.what, Ev.v, Ev.num, Ev.t)
         \/ IsEvent("number") /\ NumberTaken(Ev.d, Ev.k, Ev.n, Ev.t)
         \/ IsEvent("quiet") /\ Quiet(Ev.t)
         \/ Hidden
TStep == TNext /\ OneAtATime' /\ NumbersFit'
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
