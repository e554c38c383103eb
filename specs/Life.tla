-------------------------------- MODULE Life --------------------------------
(* The life of the application: start-up, the history of network backups, the activities in the  *)
(* background (watchdog, periodic backups, topology scans, OTA broadcasts) and shut-down.        *)
(* `main` is what the user asked for, one call at a time, as a list of steps still to do.  Each  *)
(* call of the radio is an event of its own with a beginning and an end.                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS WdPeriod,   \* ms between two feedings of the watchdog
          Gap         \* ms a topology scan waits after each page
VARIABLES
  now,
  conf,    \* the configuration
  state,   \* the network settings last loaded from the radio
  hist,    \* the backups, oldest first: [id, net]
  main,    \* the call under way
  wd, bk, topo, ota, \* activities: [on, at: next action, call: radio call under way or 0, n: page of the scan]
  calls,   \* radio calls under way: id -> who made it
  tell     \* announcements owed right now
lvs == <<now, conf, state, hist, main, wd, bk, topo, ota, calls, tell>>

NoNet == [epid |-> "none"]
Idle == [id |-> 0, kind |-> "none", todo |-> <<>>, call |-> 0, at |-> 0, err |-> "", auto |-> FALSE, last |-> <<>>, b |-> NoNet, inc |-> 0, allow |-> FALSE, create |-> FALSE]
Off == [on |-> FALSE, at |-> 0, call |-> 0, n |-> 0]
On(at) == [on |-> TRUE, at |-> at, call |-> 0, n |-> 0]
Init0(c, s) == /\ now = 0 /\ conf = c /\ state = s /\ hist = <<>> /\ main = Idle
               /\ wd = Off /\ bk = Off /\ topo = Off /\ ota = Off
               /\ calls = [x \in {} |-> ""] /\ tell = <<>>

\* ---- backups ------------------------------------------------------------------------------------------------
Same == {"nwk", "lt", "ieee", "epid", "pan", "upd", "mgr", "chan", "sec", "tclk", "key"}
Compatible(a, b) == \A f \in Same : a[f] = b[f]
Complete(b) == /\ b.ieee # "unknown" /\ b.epid # "unknown" /\ b.pan \notin {0, 65535}
               /\ b.chan \in 11..26 /\ b.key # "unknown"
Outdated(h, b) == SelectSeq(h, LAMBDA o : Compatible(o.net, b) /\ b.tx >= o.net.tx)
\* what adding b announces: every outdated backup going, then the new one
AddTells(b, id) == IF Complete(b)
                   THEN [k \in 1..Len(Outdated(hist, b)) |-> [what |-> "removed", id |-> Outdated(hist, b)[k].id, net |-> Outdated(hist, b)[k].net]]
                        \o <<[what |-> "created", id |-> id, net |-> b]>>
                   ELSE <<>>
AddQuiet(h, b, id) == IF Complete(b) THEN Append(SelectSeq(h, LAMBDA o : ~(Compatible(o.net, b) /\ b.tx >= o.net.tx)), [id |-> id, net |-> b]) ELSE h
Newest == hist[Len(hist)].net

\* ---- time -------------------------------------------------------------------------------------------------------
Loops == <<wd, bk, topo, ota>>
Timers == {Loops[k].at : k \in {j \in 1..4 : Loops[j].on /\ Loops[j].call = 0}} \cup (IF main.todo # <<>> /\ main.call = 0 THEN {main.at} ELSE {})
At(t) == t >= now /\ (\A x \in Timers : t <= x) /\ now' = t

\* ---- the steps of a call -----------------------------------------------------------------------------------------
Pure == {"wdon", "form", "restore", "validate", "loops", "stop"}
Settled == tell = <<>> /\ ~(main.todo # <<>> /\ main.call = 0 /\ Head(main.todo) \in Pure)
Op(s) == CASE s \in {"load?", "load+"} -> "load"
           [] s \in {"start?", "start"} -> "start"
           [] s \in {"writefast", "writeform", "writeback"} -> "write"
           [] OTHER -> s
Steps(kind, auto) ==
    LET init == (IF conf.watchdog THEN <<"feed", "wdon">> ELSE <<>>) \o <<"load?", "validate", "start", "permit", "permitncp">>
                \o (IF conf.scan THEN <<"scan">> ELSE <<>>) \o <<"loops", "ok">> IN
    CASE kind = "startup" -> <<"connect">> \o init
      [] kind = "initialize" -> init
      [] kind = "shutdown" -> <<"stop", "disconnect", "ok">>
      [] kind = "backup" -> <<"load+", "ok">>
      [] kind = "restore" -> <<"restore", "ok">>
      [] kind = "form" -> <<"form", "ok">>
Call(id, kind, a, t) ==
    /\ Settled /\ At(t) /\ main = Idle
    /\ main' = [Idle EXCEPT !.id = id, !.kind = kind, !.todo = Steps(kind, a.auto), !.at = t, !.auto = a.auto,
                            !.last = IF hist = <<>> THEN <<>> ELSE <<Newest>>, !.b = a.net, !.inc = a.inc, !.allow = a.allow, !.create = a.create]
    /\ UNCHANGED <<conf, state, hist, wd, bk, topo, ota, calls, tell>>
Transient(e) == IF e \in {"ConnectionResetError", "ENETUNREACH"} THEN "TransientConnectionError" ELSE e
\* an error ends the call; a start-up cleans up first
Raise(m, e) == IF m.kind = "startup" THEN [m EXCEPT !.todo = <<"stop", "disconnect", "err">>, !.err = Transient(e)]
               ELSE [m EXCEPT !.todo = <<"err">>, !.err = e]
Rest == Tail(main.todo)
PureStep ==
    /\ tell = <<>> /\ main.todo # <<>> /\ main.call = 0 /\ Head(main.todo) \in Pure
    /\ now' = now
    /\ LET s == Head(main.todo)  go == [main EXCEPT !.todo = Rest] IN
       /\ main' = CASE s = "form" -> [main EXCEPT !.todo = (IF main.kind = "form" /\ main.auto THEN <<"writefast">>
                                                             ELSE (IF conf.chan # 0 THEN <<>> ELSE <<"start?", "scan">>) \o <<"writeform", "load+">>) \o Rest]
                    [] s = "restore" -> IF ~Complete(main.b) /\ ~main.allow THEN Raise(main, "ValueError")
                                        ELSE [main EXCEPT !.todo = <<"writeback">> \o (IF main.create THEN <<"load+">> ELSE <<>>) \o Rest]
                    [] s = "validate" -> IF conf.validate /\ main.last # <<>> /\ ~Compatible(state, main.last[1])
                                         THEN Raise(main, "NetworkSettingsInconsistent") ELSE go
                    [] OTHER -> go
       /\ wd' = IF s = "wdon" THEN On(now + WdPeriod) ELSE IF s = "stop" THEN Off ELSE wd
       /\ bk' = IF s = "loops" /\ conf.backup > 0 THEN On(now) ELSE IF s = "stop" THEN Off ELSE bk
       /\ topo' = IF s = "loops" /\ conf.topo > 0 THEN On(now + conf.topo) ELSE IF s = "stop" THEN Off ELSE topo
       /\ ota' = IF s = "loops" /\ conf.ota > 0 THEN On(now + conf.otafirst) ELSE IF s = "stop" THEN Off ELSE ota
       \* what an activity was doing is given up with it
       /\ calls' = [i \in DOMAIN calls |-> IF \/ s = "stop" /\ calls[i] # "main"
                                              \/ s = "wdon" /\ calls[i] = "wd"
                                              \/ s = "loops" /\ calls[i] = "bk" /\ conf.backup > 0
                                              \/ s = "loops" /\ calls[i] = "topo" /\ conf.topo > 0
                                              \/ s = "loops" /\ calls[i] = "ota" /\ conf.ota > 0
                                           THEN "gone" ELSE calls[i]]
    /\ UNCHANGED <<conf, state, hist, tell>>

\* ---- what is written to the radio -----------------------------------------------------------------------------------
Formed(w, fast) ==
    /\ w.form = fast
    /\ IF conf.pan # -1 THEN w.net.pan = conf.pan ELSE w.net.pan \in 1..65534
    /\ IF conf.epid # "" THEN w.net.epid = conf.epid ELSE w.net.epid \notin {"unknown", "zero"}
    /\ IF conf.key # "" THEN w.net.key = conf.key ELSE w.net.key \notin {"unknown", "zero"}
    /\ IF conf.chan # 0 THEN w.net.chan = conf.chan ELSE w.net.chan \in Range(conf.chans)
    /\ w.net.upd = conf.upd /\ w.net.seq = conf.seq /\ w.net.tclk = conf.tclk /\ w.net.tcp = conf.tcp
    /\ w.net.mgr = 0 /\ w.net.sec = 5 /\ w.net.tx = 0 /\ w.net.nwk = 0 /\ w.net.ieee = "unknown" /\ w.net.lt = "coordinator"
\* settings that come from a backup: all of them, with an advanced counter
Writes(s, w) == CASE s = "writefast" -> Formed(w, TRUE)
                  [] s = "writeform" -> Formed(w, FALSE)
                  [] s = "writeback" -> w.net = [main.b EXCEPT !.tx = @ + main.inc]
\* the network is closed for joining
Args(s, a) == CASE Op(s) = "write" -> Writes(s, a)
                [] s \in {"permit", "permitncp"} -> a.time = 0
                [] OTHER -> TRUE

\* ---- calls of the radio ------------------------------------------------------------------------------------------------
MainRadio(id, op, a, t) ==
    /\ main.todo # <<>> /\ main.call = 0 /\ t = main.at /\ Op(Head(main.todo)) = op /\ Args(Head(main.todo), a)
    /\ main' \in {[main EXCEPT !.call = id]}
                  \cup (IF Head(main.todo) = "load?" /\ hist # <<>> THEN {[main EXCEPT !.call = id, !.last = <<Newest>>]} ELSE {})
    /\ calls' = (id :> "main") @@ calls
    /\ UNCHANGED <<wd, bk, topo, ota>>
Begins(x, id, op, want, t) == x.on /\ x.call = 0 /\ t = x.at /\ op = want
LoopRadio(id, op, t) ==
    /\ \/ Begins(wd, id, op, "feed", t) /\ wd' = [wd EXCEPT !.call = id] /\ calls' = (id :> "wd") @@ calls /\ UNCHANGED <<bk, topo, ota>>
       \/ Begins(bk, id, op, "load", t) /\ bk' = [bk EXCEPT !.call = id] /\ calls' = (id :> "bk") @@ calls /\ UNCHANGED <<wd, topo, ota>>
       \/ Begins(topo, id, op, IF topo.n = 0 THEN "neighbors" ELSE "routes", t) /\ topo' = [topo EXCEPT !.call = id] /\ calls' = (id :> "topo") @@ calls /\ UNCHANGED <<wd, bk, ota>>
       \/ Begins(ota, id, op, "notify", t) /\ ota' = [ota EXCEPT !.call = id] /\ calls' = (id :> "ota") @@ calls /\ UNCHANGED <<wd, bk, topo>>
    /\ UNCHANGED main
Radio(id, op, a, t) ==
    /\ Settled /\ At(t)
    /\ \/ MainRadio(id, op, a, t)
       \/ LoopRadio(id, op, t)
    /\ UNCHANGED <<conf, state, hist, tell>>
\* how a step of the call ends
Ended(m, s, res, t) ==
    LET go == [m EXCEPT !.todo = Tail(@), !.call = 0, !.at = t]  stay == [m EXCEPT !.call = 0, !.at = t] IN
    CASE res = "ok" -> go
      [] s = "disconnect" -> go
      [] s = "load?" /\ res = "NetworkNotFormed" /\ m.auto ->
             IF hist = <<>> THEN [go EXCEPT !.todo = <<"form">> \o @]
             ELSE [go EXCEPT !.todo = <<"restore">> \o @, !.b = Newest, !.inc = 10000, !.create = TRUE]
      [] s = "start?" /\ res = "NetworkNotFormed" -> [go EXCEPT !.todo = <<"writefast", "start">> \o @]
      [] s = "permit" /\ res = "busy" -> go
      [] OTHER -> Raise(stay, res)
\* an error in the clean-up of a failed start-up changes nothing any more: the first one counts
End(id, res, net, t) ==
    /\ Settled /\ At(t) /\ id \in DOMAIN calls
    /\ calls' = [i \in DOMAIN calls \ {id} |-> calls[i]]
    /\ LET who == calls[id]  s == IF main.todo = <<>> THEN "" ELSE Head(main.todo)
           loaded == res = "ok" /\ (who = "bk" \/ (who = "main" /\ Op(s) = "load")) IN
       /\ state' = IF loaded THEN net ELSE state
       /\ tell' = IF loaded /\ (who = "bk" \/ s = "load+") THEN AddTells(net, 0)
                  ELSE IF who = "wd" /\ res # "ok" THEN <<[what |-> "lost", id |-> 0, net |-> res]>> ELSE <<>>
       /\ main' = IF who = "main" THEN Ended(main, s, res, t) ELSE main
       /\ wd' = IF who = "wd" THEN (IF res = "ok" THEN On(t + WdPeriod) ELSE Off) ELSE wd
       /\ bk' = IF who = "bk" THEN On(t + conf.backup) ELSE bk
       /\ topo' = IF who = "topo" THEN (IF topo.n = 0 THEN [On(t + Gap) EXCEPT !.n = 1] ELSE On(t + Gap + conf.topo)) ELSE topo
       /\ ota' = IF who = "ota" THEN On(t + conf.ota) ELSE ota
    /\ UNCHANGED <<conf, hist>>
Result(id, out, t) ==
    /\ Settled /\ At(t) /\ main.id = id /\ main.todo \in {<<"ok">>, <<"err">>}
    /\ out = IF main.todo = <<"ok">> THEN "ok" ELSE main.err
    /\ main' = Idle
    /\ UNCHANGED <<conf, state, hist, wd, bk, topo, ota, calls, tell>>

\* ---- announcements ----------------------------------------------------------------------------------------------------
Told(what, id, net, t) ==
    /\ tell # <<>> /\ t = now /\ now' = now
    /\ Head(tell).what = what /\ net = Head(tell).net /\ (Head(tell).id = 0 \/ Head(tell).id = id)
    /\ hist' = CASE what = "removed" -> SelectSeq(hist, LAMBDA o : o.id # id)
                 [] what = "created" -> Append(hist, [id |-> id, net |-> net])
                 [] OTHER -> hist
    /\ tell' = Tail(tell)
    /\ UNCHANGED <<conf, state, main, wd, bk, topo, ota, calls>>

\* ---- from outside -------------------------------------------------------------------------------------------------------
Lost(err, t) == /\ Settled /\ At(t) /\ tell' = <<[what |-> "lost", id |-> 0, net |-> err]>>
                /\ UNCHANGED <<conf, state, hist, main, wd, bk, topo, ota, calls>>
Add(id, net, quiet, t) == /\ Settled /\ At(t)
                          /\ IF quiet THEN hist' = AddQuiet(hist, net, id) /\ UNCHANGED tell
                             ELSE tell' = AddTells(net, id) /\ UNCHANGED hist
                          /\ UNCHANGED <<conf, state, main, wd, bk, topo, ota, calls>>
\* nothing is due; the history is as it should be
Obs(h, t) == /\ Settled /\ At(t) /\ (\A x \in Timers : t < x) /\ h = hist
             /\ UNCHANGED <<conf, state, hist, main, wd, bk, topo, ota, calls, tell>>

\* ---- properties ---------------------------------------------------------------------------------------------------------
Useful == \A i, j \in 1..Len(hist) : i < j => ~(Compatible(hist[i].net, hist[j].net) /\ hist[j].net.tx >= hist[i].net.tx)
AllComplete == \A i \in 1..Len(hist) : Complete(hist[i].net)
Quiet == ~wd.on /\ ~bk.on /\ ~topo.on /\ ~ota.on
=============================================================================
