------------------------------- MODULE MC_Life -------------------------------
(* A radio that may or may not hold a network, every outcome of every radio call, calls of every *)
(* kind one after the other, the activities in the background.                                   *)
EXTENDS Life
CONSTANTS MaxCalls, MaxBad, MaxTime, MaxTicks, Confs
VARIABLES n, ids, bad, ticks, radio, conn, formedBy, first
mvars == <<lvs, n, ids, bad, ticks, radio, conn, formedBy, first>>
N(epid, tx) == [epid |-> epid, pan |-> 1, upd |-> 0, mgr |-> 0, chan |-> 15, sec |-> 5, tclk |-> "tc", key |-> "k", tx |-> tx, seq |-> 0, tcp |-> "unknown",
                nwk |-> 0, ieee |-> "ncp", lt |-> "coordinator", rest |-> ""]
New == [N("new", 0) EXCEPT !.ieee = "unknown"]
C(w, v, b) == [watchdog |-> w, scan |-> FALSE, validate |-> v, backup |-> b, topo |-> 0, ota |-> 0, otafirst |-> 0, pan |-> 1, epid |-> "", key |-> "k", chan |-> 15, chans |-> <<15>>,
               upd |-> 0, seq |-> 0, tclk |-> "tc", tcp |-> "unknown"]
TheConfs == IF Confs = 1 THEN {C(TRUE, TRUE, 40000)} ELSE {C(w, v, b) : w \in BOOLEAN, v \in BOOLEAN, b \in {0, 40000}}
MCInit == /\ \E c \in TheConfs : Init0(c, [N("old", 0) EXCEPT !.ieee = "unknown"])
          /\ radio \in {<<>>, <<N("old", 5)>>} /\ n = 0 /\ ids = 0 /\ bad = 0 /\ ticks = 0 /\ conn = FALSE /\ formedBy = "" /\ first = radio
A(auto, b, inc, allow, create) == [auto |-> auto, net |-> b, inc |-> inc, allow |-> allow, create |-> create]
Rem == UNCHANGED <<n, ids, bad, ticks, radio, conn, formedBy, first>>
Calls == \/ \E auto \in BOOLEAN, k \in {"startup"} : Call(n + 1, k, A(auto, NoNet, 0, FALSE, FALSE), now)
         \/ \E k \in {"shutdown", "backup"} : Call(n + 1, k, A(FALSE, NoNet, 0, FALSE, FALSE), now)
         \/ hist # <<>> /\ Call(n + 1, "restore", A(FALSE, Newest, 2, FALSE, TRUE), now)
         \/ Call(n + 1, "restore", A(FALSE, [New EXCEPT !.epid = "old"], 2, FALSE, TRUE), now)
\* the argument a call of the radio has, if it is the main call
Arg == LET s == Head(main.todo) IN
       CASE s \in {"writefast", "writeform"} -> [time |-> 0, form |-> s = "writefast", net |-> New]
         [] s = "writeback" -> [time |-> 0, form |-> FALSE, net |-> [main.b EXCEPT !.tx = @ + main.inc]]
         [] OTHER -> [time |-> 0, form |-> FALSE, net |-> NoNet]
Kinds(who, op) == IF op = "load" /\ who = "main" THEN {"OSError"} ELSE IF op = "permit" THEN {"busy", "ConnectionResetError"} ELSE {"ConnectionResetError"}
OpOf(id) == IF calls[id] = "main" THEN Op(Head(main.todo)) ELSE IF calls[id] = "bk" THEN "load" ELSE IF calls[id] = "wd" THEN "feed" ELSE "gone"
Done(id) ==
    LET who == calls[id]  op == OpOf(id) IN
    \/ /\ who = "gone" /\ End(id, "cancelled", NoNet, now) /\ Rem
    \/ /\ who # "gone" /\ op \in {"load", "start"} /\ radio = <<>> /\ End(id, "NetworkNotFormed", NoNet, now) /\ Rem
    \/ /\ who # "gone" /\ ~(op \in {"load", "start"} /\ radio = <<>>)
       /\ End(id, "ok", IF op = "load" THEN radio[1] ELSE NoNet, now)
       /\ radio' = IF op = "write" THEN <<[Arg.net EXCEPT !.ieee = "ncp"]>> ELSE radio
       /\ formedBy' = IF op = "write" /\ Head(main.todo) \in {"writefast", "writeform"} THEN main.kind ELSE formedBy
       /\ conn' = IF op = "connect" THEN TRUE ELSE IF op = "disconnect" THEN FALSE ELSE conn
       /\ UNCHANGED <<n, ids, bad, ticks, first>>
    \/ /\ who # "gone" /\ bad < MaxBad
       /\ \E k \in Kinds(who, op) : End(id, k, NoNet, now)
       /\ bad' = bad + 1
       /\ conn' = IF op = "disconnect" THEN FALSE ELSE conn
       /\ UNCHANGED <<n, ids, ticks, radio, formedBy, first>>
Do == \/ n < MaxCalls /\ Calls /\ n' = n + 1 /\ UNCHANGED <<ids, bad, ticks, radio, conn, formedBy, first>>
      \/ /\ main.todo # <<>> /\ main.call = 0 /\ Head(main.todo) \notin {"ok", "err"} /\ Settled
         /\ Radio(ids + 1, Op(Head(main.todo)), Arg, now) /\ ids' = ids + 1 /\ UNCHANGED <<n, bad, ticks, radio, conn, formedBy, first>>
      \/ \E op \in {"feed", "load"}, t \in {wd.at, bk.at} : t >= now /\ LoopRadio(ids + 1, op, t) /\ Settled /\ At(t) /\ UNCHANGED <<conf, state, hist, tell>>
                                                            /\ ids' = ids + 1 /\ UNCHANGED <<n, bad, ticks, radio, conn, formedBy, first>>
      \/ \E id \in DOMAIN calls : Done(id)
      \/ main.todo \in {<<"ok">>, <<"err">>} /\ Result(main.id, IF main.todo = <<"ok">> THEN "ok" ELSE main.err, now) /\ Rem
      \/ tell # <<>> /\ Told(Head(tell).what, IF Head(tell).id # 0 THEN Head(tell).id ELSE 100 + ids, Head(tell).net, now) /\ Rem
      \/ Settled /\ calls # [x \in {} |-> ""] /\ ticks < MaxTicks /\ At(now + 15000) /\ UNCHANGED <<conf, state, hist, main, wd, bk, topo, ota, calls, tell>>
                 /\ ticks' = ticks + 1 /\ UNCHANGED <<n, ids, bad, radio, conn, formedBy, first>>
      \/ PureStep /\ Rem
MCSpec == MCInit /\ [][Do]_mvars
Bound == now <= MaxTime
\* a radio that had a network is never formed
NeverOverwritten == first # <<>> => formedBy = ""
\* restoring keeps the network
SameNetwork == radio # <<>> => radio[1].epid \in {"old", "new"}
\* a failed start-up and a shut-down leave the radio disconnected and nothing running
FailedIsOff == (main.kind = "startup" /\ main.todo = <<"err">>) \/ (main.kind = "shutdown" /\ main.todo = <<"ok">>) => Quiet /\ ~conn
StopsAtOnce == main.todo # <<>> /\ Head(main.todo) = "disconnect" => Quiet
\* what the radio holds never loses frame counters by restoring
LostOnce == Len(SelectSeq(tell, LAMBDA x : x.what = "lost")) <= 1
=============================================================================
