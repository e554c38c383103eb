-------------------------------- MODULE Outgoing --------------------------------
(* What the coordinator sends: every call is a little program of steps (send a packet and maybe *)
(* wait for the reply, open the radio, wait, reload the settings).  A packet carries exactly     *)
(* what was asked for; sequence numbers are taken from the device's, the group's or the          *)
(* application's own counter.  Times are milliseconds.                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Normal, Extended,    \* how long a reply is waited for
          Settle, Reload       \* channel change: pause after a broadcast, pause between reloads

VARIABLES
  now,
  cfg,    \* [nwk, num, ieee, me (its bytes), sr: use source routes, chan, upd]
  dev,    \* name -> [nwk, ieee, desc, relays, zll]
  seq,    \* "app", devices and groups -> the sequence number handed out last
  calls   \* id -> [plan, at: step in progress, sub, since, got, res]
ovars == <<now, cfg, dev, seq, calls>>

Init0(c, d) == now = 0 /\ cfg = c /\ dev = d /\ seq = [x \in {} |-> 0] /\ calls = [i \in {} |-> 0]
Last0(x) == IF x \in DOMAIN seq THEN seq[x] ELSE 0
Next8(n) == (n + 1) % 256
Lo(n) == n % 256
Hi(n) == n \div 256

\* ---- templates of packets -----------------------------------------------------------------------------
\* addressing is resolved when the packet is sent; `tsn` -1: numbered when sent
Unicast(d, ieee, sep, dep, prof, cl, tsn, data, ext, ack, prio) ==
    [mode |-> IF ieee THEN "IEEE" ELSE "NWK", d |-> d, addr |-> "", sep |-> sep, dep |-> dep, prof |-> prof, cl |-> cl, tsn |-> tsn,
     data |-> data, ext |-> ext, ack |-> ack, radius |-> 0, nmr |-> 0, prio |-> prio]
Multi(mode, addr, sep, dep, prof, cl, tsn, data, radius, nmr, prio) ==
    [mode |-> mode, d |-> "", addr |-> addr, sep |-> sep, dep |-> dep, prof |-> prof, cl |-> cl, tsn |-> tsn,
     data |-> data, ext |-> FALSE, ack |-> FALSE, radius |-> radius, nmr |-> nmr, prio |-> prio]
\* the application's own number, also the first byte of a device management message
Numbered(p, n) == IF p.tsn = -1 THEN [p EXCEPT !.tsn = n, !.data = <<n>> \o @] ELSE p
Real(p) ==
    [src |-> CASE p.mode = "IEEE" -> <<"IEEE", cfg.ieee>> [] p.mode = "Own" -> <<"none", "">> [] OTHER -> <<"NWK", cfg.nwk>>,
     dst |-> CASE p.mode = "IEEE" -> <<"IEEE", dev[p.d].ieee>> [] p.mode = "NWK" -> <<"NWK", dev[p.d].nwk>>
               [] p.mode = "Own" -> <<"Group", p.addr>> [] OTHER -> <<p.mode, p.addr>>,
     sep |-> p.sep, dep |-> p.dep, prof |-> p.prof, cl |-> p.cl, tsn |-> p.tsn, data |-> p.data, ext |-> p.ext, ack |-> p.ack,
     radius |-> p.radius, nmr |-> p.nmr, prio |-> p.prio,
     \* relays are stored in the order of the way in
     route |-> IF p.mode \in {"IEEE", "NWK"} /\ cfg.sr THEN Reverse(dev[p.d].relays) ELSE <<-1>>]

Slow(d) == dev[d].desc \in {"none", "end"}
Acked(ack, expect) == IF ack = -1 THEN ~expect ELSE ack = 1
Wait(d, expect, timeout) == IF ~expect THEN -1 ELSE IF Slow(d) THEN Extended ELSE timeout
\* ---- steps ----------------------------------------------------------------------------------------------
\* slot: the device that is kept busy ("": none); wait: how long for a reply (-1: none is expected);
\* soft: outcomes that are not failures of the call
Send(p, slot, wait, from, soft) == [s |-> "send", p |-> p, slot |-> slot, wait |-> wait, from |-> from, soft |-> soft, ms |-> 0]
Step(s, ms) == [s |-> s, p |-> 0, slot |-> "", wait |-> -1, from |-> "", soft |-> {}, ms |-> ms]
ToDevice(d, prof, cl, sep, dep, tsn, data, expect, ack, ieee, prio, timeout, soft) ==
    <<Send(Unicast(d, ieee, sep, dep, prof, cl, tsn, data, expect /\ Slow(d), Acked(ack, expect), prio), d, Wait(d, expect, timeout), "", soft)>>
\* light link endpoints talk home automation, except for commissioning
Profile(d, cl, cmd) == IF dev[d].zll /\ ~(cl = 4096 /\ cmd < 64) THEN 260 ELSE IF dev[d].zll THEN 49246 ELSE 260
ZclData(a, tsn, reply) ==
    <<(IF a.general THEN 0 ELSE 1) + (IF a.manuf = -1 THEN 0 ELSE 4) + (IF a.client THEN 8 ELSE 0) + (IF a.client \/ reply THEN 16 ELSE 0)>>
    \o (IF a.manuf = -1 THEN <<>> ELSE <<Lo(a.manuf), Hi(a.manuf)>>) \o <<tsn, a.cmd>> \o a.payload
Zdo(d, cl, tsn, body, expect, ack, ieee, prio, timeout, soft) ==
    ToDevice(d, 0, cl, 0, 0, tsn, <<tsn>> \o body, expect, ack, ieee, prio, timeout, soft)
ZdoBroadcast(cl, body, addr, radius) == Multi("Broadcast", addr, 0, 0, 0, cl, -1, body, radius, 0, 0)
Channels(c) == LET m == 2 ^ c IN <<m % 256, (m \div 256) % 256, (m \div 65536) % 256, m \div 16777216>>

\* questions of other nodes about the coordinator, and the answers
Concerns(a) == CASE a.q = "nwk" -> SubSeq(a.ask, 1, 8) = cfg.me
                 [] a.q = "ieee" -> a.ask[1] + 256 * a.ask[2] \in {65532, 65533, 65535, cfg.num}
                 [] OTHER -> TRUE
Answer(a) == IF a.q = "match" THEN <<0, Lo(cfg.num), Hi(cfg.num)>> \o (IF a.ask[3] + 256 * a.ask[4] = 260 THEN <<1, 1>> ELSE <<0>>)
             ELSE <<0>> \o cfg.me \o <<Lo(cfg.num), Hi(cfg.num), 0, 0>>

\* the program of a call; n: the next number of the counter it uses
Plan(kind, d, a, n) ==
    CASE kind = "app" -> <<Send(Unicast(d, a.ieee, a.sep, a.dep, a.prof, a.cl, a.tsn, a.data, a.ext, Acked(a.ack, a.expect), a.prio), "", -1, "", {})>>
      [] kind = "dev" -> ToDevice(d, a.prof, a.cl, a.sep, a.dep, a.tsn, a.data, a.expect, a.ack, a.ieee, a.prio, a.timeout, {})
      [] kind = "ep" -> ToDevice(d, Profile(d, a.cl, a.cmd), a.cl, a.sep, a.sep, a.tsn, a.data, a.expect, a.ack, a.ieee, a.prio, a.timeout, {})
      [] kind = "zcl" -> LET q == IF a.tsn = -1 THEN n ELSE a.tsn IN
                         ToDevice(d, Profile(d, a.cl, a.cmd), a.cl, a.sep, a.sep, q, ZclData(a, q, a.reply), a.expect, a.ack, a.ieee, a.prio, a.timeout, {})
      [] kind = "zdo" -> LET q == IF a.tsn = -1 THEN n ELSE a.tsn IN
                         Zdo(d, a.cl, q, a.body, a.expect, a.ack, a.ieee, a.prio, a.timeout, {})
      [] kind = "mcast" -> <<Send(Multi("Group", a.addr, a.sep, -1, a.prof, a.cl, a.tsn, a.data, a.radius, a.nmr, a.prio), "", -1, "", {})>>
      [] kind = "bcast" -> <<Send(Multi("Broadcast", a.addr, a.sep, a.dep, a.prof, a.cl, a.tsn, a.data, a.radius, 0, a.prio), "", -1, "", {})>>
      [] kind = "group" -> <<Send(Multi("Own", a.addr, 1, -1, 260, a.cl, n, ZclData(a, n, FALSE), 0, 3, 0), "", -1, "", {})>>
      [] kind = "zdobcast" -> <<Send(Numbered(ZdoBroadcast(a.cl, a.body, a.addr, a.radius), n), "", -1, "", {})>>
      [] kind = "permit" ->
           IF a.to = "all" THEN <<Send(Numbered(ZdoBroadcast(54, <<a.time, 0>>, "0xFFFC", 0), n), "", -1, "", {}), Step("ncp", a.time)>>
           ELSE IF a.to = "self" THEN <<Step("ncp", a.time)>>
           ELSE IF a.to = "unknown" THEN <<>>
           ELSE Zdo(d, 54, n, <<a.time, 0>>, TRUE, -1, FALSE, 0, Normal, {"delivery"})
      [] kind = "channel" ->
           IF a.chan = cfg.chan THEN <<>>
           ELSE LET body == Channels(a.chan) \o <<254, (cfg.upd + 1) % 255>> IN
                FlattenSeq([i \in 1..a.num |-> <<Send(ZdoBroadcast(56, body, "0xFFFF", 30), "", -1, "app", {}), Step("sleep", Settle)>>])
                \o <<Send(Unicast(d, FALSE, 0, 0, 0, 56, -1, body, Slow(d), FALSE, 0), d, Wait(d, TRUE, Normal), d, {}), Step("reload", a.chan)>>
      [] kind = "scan" -> Zdo(d, 56, n, a.body, TRUE, -1, FALSE, 0, Normal, {"delivery", "timeout"})
      \* requests from the network about the coordinator
      [] kind = "asked" -> IF ~Concerns(a) THEN <<>>
                           ELSE Zdo(d, a.cl, a.tsn, Answer(a), FALSE, -1, FALSE, a.prio, Normal, {"delivery"})
      [] OTHER -> <<>>
\* which counter a call takes a number from at once
Counter(kind, d, a) ==
    CASE kind \in {"zcl", "zdo"} -> IF a.tsn = -1 THEN d ELSE ""
      [] kind = "group" -> a.addr
      [] kind = "zdobcast" -> "app"
      [] kind = "permit" -> IF a.to = "all" THEN "app" ELSE IF a.to \in {"self", "unknown"} THEN "" ELSE d
      [] kind = "scan" -> d
      [] OTHER -> ""

\* ---- progress ------------------------------------------------------------------------------------------
C(i) == calls[i]
Ids == DOMAIN calls
Over(i) == C(i).at > Len(C(i).plan) \/ C(i).res # ""
Cur(i) == C(i).plan[C(i).at]
Busy(d) == \E i \in Ids : ~Over(i) /\ C(i).sub \in {"sending", "waiting"} /\ Cur(i).s = "send" /\ Cur(i).slot = d
CanSend(i) == ~Over(i) /\ C(i).sub = "ready" /\ Cur(i).s = "send" /\ (Cur(i).slot # "" => ~Busy(Cur(i).slot))
Deadline(i) == IF Over(i) THEN -1
               ELSE IF C(i).sub = "waiting" THEN C(i).since + Cur(i).wait
               ELSE IF C(i).sub = "ready" /\ Cur(i).s = "sleep" THEN C(i).since + Cur(i).ms
               ELSE -1
\* something has to happen before time passes
Urgent == \E i \in Ids : \/ Over(i) /\ C(i).res # "told" /\ ~C(i).hush
                         \/ CanSend(i)
                         \/ ~Over(i) /\ C(i).sub = "ready" /\ Cur(i).s = "ncp"
                         \/ ~Over(i) /\ Cur(i).s = "reload" /\ C(i).since <= now
                         \/ ~Over(i) /\ C(i).sub = "waiting" /\ C(i).got
At(t) == /\ t >= now
         /\ t > now => ~Urgent /\ \A i \in Ids : /\ Deadline(i) # -1 => t <= Deadline(i)
                                                 /\ ~Over(i) /\ Cur(i).s = "reload" => t <= C(i).since
         /\ now' = t
Advance(i, t) == [C(i) EXCEPT !.at = @ + 1, !.sub = "ready", !.since = t, !.got = FALSE]

Call(i, kind, d, a, t) ==
    /\ At(t) /\ i \notin Ids
    /\ LET c == Counter(kind, d, a) n == Next8(Last0(c)) IN
       /\ seq' = IF c = "" THEN seq ELSE (c :> n) @@ seq
       /\ calls' = (i :> [plan |-> Plan(kind, d, a, n), at |-> 1, sub |-> "ready", since |-> t, got |-> FALSE, hush |-> kind = "asked",
                          res |-> IF kind = "bad" THEN "error" ELSE ""]) @@ calls
    /\ UNCHANGED <<cfg, dev>>
\* the one packet of the step in progress leaves
Sent(i, p, t) ==
    /\ At(t) /\ i \in Ids /\ CanSend(i)
    /\ LET f == Cur(i).from n == Next8(Last0(f)) IN
       /\ p = Real(Numbered(Cur(i).p, n))
       /\ seq' = IF f = "" THEN seq ELSE (f :> n) @@ seq
    /\ calls' = [calls EXCEPT ![i].sub = "sending"]
    /\ UNCHANGED <<cfg, dev>>
Failed(i, why) == IF why \in Cur(i).soft THEN Advance(i, now') ELSE [C(i) EXCEPT !.res = why]
\* the radio has sent it, or could not
Radio(i, ok, t) ==
    /\ At(t) /\ i \in Ids /\ ~Over(i) /\ C(i).sub = "sending"
    /\ calls' = [calls EXCEPT ![i] = IF ~ok THEN Failed(i, "delivery")
                                     ELSE IF Cur(i).wait = -1 THEN Advance(i, t)
                                     ELSE [C(i) EXCEPT !.sub = "waiting", !.since = t]]
    /\ UNCHANGED <<cfg, dev, seq>>
\* the reply to it: may come before the radio has reported success
Replied(i, t) ==
    /\ At(t) /\ i \in Ids
    /\ calls' = IF Over(i) \/ Cur(i).s # "send" \/ C(i).sub = "ready" \/ Cur(i).wait = -1 THEN calls
                ELSE [calls EXCEPT ![i].got = TRUE]
    /\ UNCHANGED <<cfg, dev, seq>>
Finish(i) == /\ ~Over(i) /\ C(i).sub = "waiting" /\ C(i).got
             /\ calls' = [calls EXCEPT ![i] = Advance(i, now)]
             /\ UNCHANGED <<now, cfg, dev, seq>>
TimedOut(i) == /\ ~Over(i) /\ C(i).sub = "waiting" /\ ~C(i).got /\ At(Deadline(i))
               /\ calls' = [calls EXCEPT ![i] = Failed(i, "timeout")]
               /\ UNCHANGED <<cfg, dev, seq>>
Slept(i) == /\ ~Over(i) /\ C(i).sub = "ready" /\ Cur(i).s = "sleep" /\ At(Deadline(i))
            /\ calls' = [calls EXCEPT ![i] = Advance(i, now')] /\ UNCHANGED <<cfg, dev, seq>>
Opened(i, ms, t) == /\ At(t) /\ i \in Ids /\ ~Over(i) /\ C(i).sub = "ready" /\ Cur(i).s = "ncp" /\ Cur(i).ms = ms
                    /\ calls' = [calls EXCEPT ![i] = Advance(i, t)] /\ UNCHANGED <<cfg, dev, seq>>
\* the channel has changed: nothing to be reloaded (any more)
Arrived(i) == /\ ~Over(i) /\ Cur(i).s = "reload" /\ cfg.chan = Cur(i).ms
              /\ At(IF C(i).since > now THEN C(i).since ELSE now)
              /\ calls' = [calls EXCEPT ![i] = Advance(i, now')] /\ UNCHANGED <<cfg, dev, seq>>
Reloaded(i, chan, t) == /\ At(t) /\ i \in Ids /\ ~Over(i) /\ Cur(i).s = "reload" /\ C(i).since <= t /\ cfg.chan # Cur(i).ms
                        /\ cfg' = [cfg EXCEPT !.chan = chan]
                        /\ calls' = [calls EXCEPT ![i].since = t + Reload] /\ UNCHANGED <<dev, seq>>
Result(i, what, t) ==
    /\ At(t) /\ i \in Ids /\ Over(i) /\ C(i).res # "told"
    /\ what = (IF C(i).res = "" THEN "ok" ELSE C(i).res)
    /\ calls' = [calls EXCEPT ![i].res = "told", ![i].at = Len(C(i).plan) + 1]
    /\ UNCHANGED <<cfg, dev, seq>>
\* the network changes: address, relays, or the radio's own settings
Changed(d, what, v, num, t) == /\ At(t) /\ UNCHANGED <<seq, calls>>
                          /\ IF what = "nwk" THEN dev' = [dev EXCEPT ![d].nwk = v] /\ UNCHANGED cfg
                             ELSE IF what = "relays" THEN dev' = [dev EXCEPT ![d].relays = v] /\ UNCHANGED cfg
                             ELSE IF what = "desc" THEN dev' = [dev EXCEPT ![d].desc = v] /\ UNCHANGED cfg
                             ELSE cfg' = [cfg EXCEPT !.nwk = v, !.num = num] /\ UNCHANGED dev
\* k numbers are asked for, the last one is n
NumberTaken(d, k, n, t) == At(t) /\ n = (Last0(d) + k) % 256 /\ seq' = (d :> n) @@ seq /\ UNCHANGED <<cfg, dev, calls>>
Quiet(t) == At(t) /\ (t = now => ~Urgent) /\ UNCHANGED <<cfg, dev, seq, calls>>

\* ---- properties of the specification ----------------------------------------------------------------------
OneAtATime == \A i, j \in Ids : i # j /\ ~Over(i) /\ ~Over(j) /\ C(i).sub # "ready" /\ C(j).sub # "ready"
                /\ Cur(i).s = "send" /\ Cur(j).s = "send" /\ Cur(i).slot # "" => Cur(i).slot # Cur(j).slot
NumbersFit == \A x \in DOMAIN seq : seq[x] \in 0..255
=============================================================================
