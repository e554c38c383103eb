----------------------------- MODULE Topology -----------------------------
(* Topology scans.  A scan walks over a snapshot of the devices; for every router it reads the    *)
(* neighbor and then the routing table page by page, stores and announces each table, and in the  *)
(* end looks for unknown addresses.  At most one scan is under way.  A periodic loop starts scans *)
(* of its own.  Times are milliseconds; `now` only moves with events and timers.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Tries, Pause, Timeout
VARIABLES
  now,
  conf,    \* [gap: pause after a page, skip: coordinator is not scanned]
  devs,    \* known devices, in order: [n, nwk, kind]  (kind: "router" "end" "coordinator" "unknown")
  nb, rt,  \* device -> stored table
  nonb, nort, \* devices that do not support the tables
  scan,    \* the scan under way, or NoScan
  loop,    \* the periodic loop: [on, period, at]  (at = -1 while it waits for its scan)
  ended    \* results owed to callers: id -> outcome
tvs == <<now, conf, devs, nb, rt, nonb, nort, scan, loop, ended>>

NoScan == [id |-> -1, phase |-> "none", list |-> <<>>, given |-> FALSE, pos |-> 0, tab |-> "nb", idx |-> 0, acc |-> <<>>, last |-> FALSE, tries |-> 0, at |-> 0,
           ask |-> 0, early |-> [kind |-> "none", entries |-> 0, list |-> <<>>], find |-> {}]
Off == [on |-> FALSE, period |-> 0, at |-> 0]
Init0(c) == /\ now = 0 /\ conf = c /\ devs = <<>> /\ nb = [x \in {} |-> <<>>] /\ rt = [x \in {} |-> <<>>]
            /\ nonb = {} /\ nort = {} /\ scan = NoScan /\ loop = Off /\ ended = [x \in {} |-> ""]

Active == scan.phase # "none"
Periodic == scan.id = 0
Of(f, n) == IF n \in DOMAIN f THEN f[n] ELSE <<>>
Known(nwk) == \E i \in 1..Len(devs) : devs[i].nwk = nwk

\* ---- time: nothing may happen after a timer that has not acted yet -----------------------------------------
ScanTimer == scan.phase \in {"begin", "ask", "wait", "sleep", "told", "find", "findgap"}
Reach(t) == /\ t >= now
            /\ ScanTimer => t <= scan.at
            /\ (loop.on /\ loop.at >= 0) => t <= loop.at
At(t) == Reach(t) /\ now' = t

\* ---- the walk -------------------------------------------------------------------------------------------------
Dev(s) == s.list[s.pos]
Scannable(d) == /\ d.kind \in {"router", "coordinator"}
                /\ ~(d.n \in nonb /\ d.n \in nort)
                /\ ~(conf.skip /\ d.kind = "coordinator")
Invalid(e) == e.n \in {"zero", "ones"}
Valid(tab, list) == IF tab = "nb" THEN SelectSeq(list, LAMBDA e : ~Invalid(e)) ELSE SelectSeq(list, LAMBDA e : e.st # 3)
\* what is looked for in the end
Unknown == {e.nwk : e \in {x \in UNION {Range(nb[n]) : n \in DOMAIN nb} : ~Known(x.nwk)}}
           \cup {a \in UNION {{e.dst, e.hop} : e \in {x \in UNION {Range(rt[n]) : n \in DOMAIN rt} : x.st = 0}} : ~Known(a)}
\* the next device from position p on, or the search
RECURSIVE NextDev(_, _)
NextDev(s, p) == IF p > Len(s.list) THEN [s EXCEPT !.pos = p, !.phase = "looking"]
                 ELSE IF Scannable(s.list[p]) THEN [s EXCEPT !.pos = p, !.phase = "table", !.tab = "nb"]
                 ELSE NextDev(s, p + 1)
Begin == /\ scan.phase = "begin" /\ Reach(scan.at) /\ now' = scan.at
         /\ scan' = NextDev([scan EXCEPT !.list = IF scan.given THEN @ ELSE devs], 1)
         /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, loop, ended>>
\* a table is read unless the device is known not to support it
StartTable == /\ scan.phase = "table" /\ now' = now
              /\ LET n == Dev(scan).n  un == IF scan.tab = "nb" THEN n \in nonb ELSE n \in nort IN
                 scan' = IF un THEN [scan EXCEPT !.phase = "stored", !.acc = <<>>, !.last = TRUE, !.at = now]
                         ELSE [scan EXCEPT !.phase = "ask", !.idx = 0, !.acc = <<>>, !.last = FALSE, !.tries = 0, !.at = now]
              /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, loop, ended>>
Ask(id, n, tab, idx, t) ==
    /\ scan.phase = "ask" /\ t = scan.at /\ At(t)
    /\ n = Dev(scan).n /\ tab = scan.tab /\ idx = scan.idx
    /\ scan' = [scan EXCEPT !.phase = "radio", !.ask = id, !.early = NoScan.early]
    /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, loop, ended>>
\* a try failed: again after a pause, or the old table stays
Failed(s, t) == IF s.tries + 1 < Tries THEN [s EXCEPT !.tries = @ + 1, !.phase = "ask", !.at = t + Pause]
                ELSE [s EXCEPT !.phase = "kept", !.at = t]
Page(s, a, t) ==
    CASE a.kind = "page" -> [s EXCEPT !.acc = @ \o a.list, !.idx = @ + Len(a.list), !.tries = 0, !.phase = "sleep", !.at = t + conf.gap,
                                      !.last = s.idx + Len(a.list) >= a.entries \/ a.list = <<>>]
      [] a.kind = "refused" -> [s EXCEPT !.phase = "stored", !.acc = <<>>, !.at = t]
      [] a.kind = "bare" -> [s EXCEPT !.phase = "kept", !.at = t]
      [] OTHER -> Failed(s, t)
Taken(a, t) ==
    /\ scan' = Page(scan, a, t)
    /\ nonb' = IF a.kind = "refused" /\ scan.tab = "nb" THEN nonb \cup {Dev(scan).n} ELSE nonb
    /\ nort' = IF a.kind = "refused" /\ scan.tab = "rt" THEN nort \cup {Dev(scan).n} ELSE nort
Radio(id, ok, t) ==
    /\ At(t)
    /\ IF scan.phase = "radio" /\ scan.ask = id
       THEN IF ~ok THEN scan' = Failed(scan, t) /\ UNCHANGED <<nonb, nort>>
            ELSE IF scan.early.kind # "none" THEN Taken(scan.early, t)
            ELSE scan' = [scan EXCEPT !.phase = "wait", !.at = t + Timeout] /\ UNCHANGED <<nonb, nort>>
       ELSE UNCHANGED <<scan, nonb, nort>>
    /\ UNCHANGED <<conf, devs, nb, rt, loop, ended>>
Answer(id, a, t) ==
    /\ At(t)
    /\ IF scan.phase = "wait" /\ scan.ask = id THEN Taken(a, t)
       ELSE IF scan.phase = "radio" /\ scan.ask = id /\ scan.early.kind = "none" THEN scan' = [scan EXCEPT !.early = a] /\ UNCHANGED <<nonb, nort>>
       ELSE UNCHANGED <<scan, nonb, nort>>
    /\ UNCHANGED <<conf, devs, nb, rt, loop, ended>>
Expire == /\ scan.phase = "wait" /\ Reach(scan.at) /\ now' = scan.at
          /\ scan' = Failed(scan, scan.at)
          /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, loop, ended>>
Wake == /\ scan.phase = "sleep" /\ Reach(scan.at) /\ now' = scan.at
        /\ scan' = [scan EXCEPT !.phase = IF scan.last THEN "stored" ELSE "ask"]
        /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, loop, ended>>
\* the table is stored (or the old one kept) and announced
Put(f, n, v) == (n :> v) @@ f
Store == /\ scan.phase \in {"stored", "kept"} /\ now' = now
         /\ LET n == Dev(scan).n
                v(f) == IF scan.phase = "kept" THEN Of(f, n) ELSE Valid(scan.tab, scan.acc) IN
            /\ nb' = IF scan.tab = "nb" THEN Put(nb, n, v(nb)) ELSE nb
            /\ rt' = IF scan.tab = "rt" THEN Put(rt, n, v(rt)) ELSE rt
         /\ scan' = [scan EXCEPT !.phase = "told", !.at = now]
         /\ UNCHANGED <<conf, devs, nonb, nort, loop, ended>>
Told(tab, n, table, t) ==
    /\ scan.phase = "told" /\ t = scan.at /\ At(t)
    /\ tab = scan.tab /\ n = Dev(scan).n /\ table = (IF tab = "nb" THEN nb[n] ELSE rt[n])
    /\ scan' = IF tab = "nb" THEN [scan EXCEPT !.phase = "table", !.tab = "rt"] ELSE NextDev(scan, scan.pos + 1)
    /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, loop, ended>>
\* the end of a scan: its caller learns about it, the periodic loop goes on
Finish(out, t) == /\ scan' = NoScan
                  /\ ended' = IF Periodic THEN ended ELSE (scan.id :> out) @@ ended
                  /\ loop' = IF Periodic THEN [loop EXCEPT !.at = t + loop.period] ELSE loop
Look == /\ scan.phase = "looking" /\ now' = now
        /\ IF Unknown = {} THEN Finish("ok", now)
           ELSE scan' = [scan EXCEPT !.phase = "find", !.find = Unknown, !.at = now] /\ UNCHANGED <<loop, ended>>
        /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort>>
Find(id, nwk, t) == /\ scan.phase = "find" /\ t = scan.at /\ At(t) /\ nwk \in scan.find
                    /\ scan' = [scan EXCEPT !.phase = "findradio", !.find = @ \ {nwk}, !.ask = id]
                    /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, loop, ended>>
FindRadio(id, ok, t) == /\ At(t)
                        /\ IF scan.phase = "findradio" /\ scan.ask = id
                           THEN IF ok THEN scan' = [scan EXCEPT !.phase = "findgap", !.at = t + conf.gap] /\ UNCHANGED <<loop, ended>>
                                ELSE Finish("DeliveryError", t)
                           ELSE UNCHANGED <<scan, loop, ended>>
                        /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort>>
FindGap == /\ scan.phase = "findgap" /\ Reach(scan.at) /\ now' = scan.at
           /\ IF scan.find = {} THEN Finish("ok", scan.at) ELSE scan' = [scan EXCEPT !.phase = "find"] /\ UNCHANGED <<loop, ended>>
           /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort>>

\* ---- from outside -------------------------------------------------------------------------------------------------
\* steps that take no time happen before anything else
Settled == scan.phase \notin {"table", "stored", "kept", "looking"}
New(id, given, list, t) == [NoScan EXCEPT !.id = id, !.phase = "begin", !.given = given, !.list = list, !.at = t]
\* a newly requested scan cancels the one under way
Replace(s, t) == /\ scan' = s
                 /\ ended' = IF Active /\ ~Periodic THEN (scan.id :> "CancelledError") @@ ended ELSE ended
                 /\ loop' = IF Active /\ Periodic THEN [loop EXCEPT !.at = t + loop.period] ELSE loop
Call(id, given, list, t) ==
    /\ Settled /\ At(t) /\ Replace(New(id, given, [k \in 1..Len(list) |-> CHOOSE d \in Range(devs) : d.n = list[k]], t), t)
    /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort>>
CancelCall(id, t) ==
    /\ Settled /\ At(t)
    /\ IF Active /\ scan.id = id THEN Replace(NoScan, t) ELSE UNCHANGED <<scan, loop, ended>>
    /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort>>
Result(id, out, t) == /\ Settled /\ At(t) /\ id \in DOMAIN ended /\ ended[id] = out
                      /\ ended' = [x \in DOMAIN ended \ {id} |-> ended[x]]
                      /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, scan, loop>>
Stopped == /\ scan' = IF Active /\ Periodic THEN NoScan ELSE scan
Start(period, t) == /\ Settled /\ At(t) /\ Stopped
                    /\ loop' = [on |-> TRUE, period |-> period, at |-> t + period]
                    /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, ended>>
Stop(t) == /\ Settled /\ At(t) /\ Stopped /\ loop' = Off
           /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, ended>>
\* the period is over: a scan starts unless one is under way
Period == /\ loop.on /\ loop.at >= 0 /\ Settled /\ Reach(loop.at) /\ now' = loop.at
          /\ IF Active THEN loop' = [loop EXCEPT !.at = @ + loop.period] /\ UNCHANGED scan
             ELSE loop' = [loop EXCEPT !.at = -1] /\ scan' = New(0, FALSE, <<>>, loop.at)
          /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, ended>>
Device(d, t) == /\ Settled /\ At(t) /\ devs' = Append(SelectSeq(devs, LAMBDA x : x.n # d.n), d)
                /\ UNCHANGED <<conf, nb, rt, nonb, nort, scan, loop, ended>>
Gone(n, t) == /\ Settled /\ At(t) /\ devs' = SelectSeq(devs, LAMBDA x : x.n # n)
              /\ UNCHANGED <<conf, nb, rt, nonb, nort, scan, loop, ended>>
\* nothing left to do at t
Obs(t, n1, r1) == /\ Settled /\ At(t) /\ ended = [x \in {} |-> ""]
                  /\ (ScanTimer => scan.at > t) /\ ((loop.on /\ loop.at >= 0) => loop.at > t)
                  /\ \A n \in DOMAIN nb \cup DOMAIN n1 : Of(n1, n) = Of(nb, n)
                  /\ \A n \in DOMAIN rt \cup DOMAIN r1 : Of(r1, n) = Of(rt, n)
                  /\ UNCHANGED <<conf, devs, nb, rt, nonb, nort, scan, loop, ended>>
=============================================================================
