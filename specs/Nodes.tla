--------------------------------- MODULE Nodes ---------------------------------
(* Life of the nodes of the network as the application keeps it: joins, address changes,        *)
(* interviews, leaving, removal, and the group membership rescan on a rejoin.                   *)
(* A node is known by its IEEE address (`n`); the application may have several device objects   *)
(* for one node over time (`o`), but at most one of them is in the device table.                *)
(* Times are milliseconds; whatever can happen immediately happens before time passes.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Tries, Pause,            \* an interview's attempts and the pause between them
          Short, Long,             \* reply timeouts: normal; unknown or sleeping devices
          LeaveShort, LeaveLong    \* how long a removal waits

VARIABLES
  now,
  obj,    \* object -> what is known [n, nwk, desc, eps, model, manuf]
  tab,    \* node -> object in the device table
  iv,     \* object -> interview [st, tries, at, ph, i, k]
  gs,     \* object -> group rescan: endpoints still to be asked (<<>>: none going on)
  rem,    \* sequence of running removals [o, dl, sent]
  par,    \* sequence of leave requests to parents: <<object, node, patience>>
  out,    \* object -> the request it is to answer [what, ep, attrs, dl], or NoReq
  due     \* events that follow at once, in this order
nvars == <<now, obj, tab, iv, gs, rem, par, out, due>>

NoReq == [what |-> "none", ep |-> 0, attrs |-> {}, dl |-> 0, id |-> 0]
Off == [st |-> "off", tries |-> 0, at |-> 0, ph |-> "desc", i |-> 1, k |-> 1]
StartedAt(t) == [st |-> "run", tries |-> Tries, at |-> t, ph |-> "desc", i |-> 1, k |-> 1]
NInit == now = 0 /\ obj = <<>> /\ tab = <<>> /\ iv = <<>> /\ gs = <<>> /\ rem = <<>> /\ par = <<>> /\ out = <<>> /\ due = <<>>

Objs == DOMAIN obj
Known(n) == n \in DOMAIN tab
Done(o) == obj[o].desc # "none" /\ Len(obj[o].eps) > 0 /\ \A i \in 1..Len(obj[o].eps) : obj[o].eps[i].st # "new"
Interviewing(o) == iv[o].st = "run"
BeingRemoved(o) == \E r \in ToSet(rem) : r.o = o
Patience(o) == IF obj[o].desc \in {"none", "end"} THEN Long ELSE Short

\* ---- what an interview still has to ask --------------------------------------------------------------
\* names asked for together, then one by one
Reads == <<{"manufacturer", "model"}, {"manufacturer"}, {"model"}>>
Missing(ep, names) == {a \in names : IF a = "model" THEN ep.cmod = "?" ELSE ep.cman = "?"}
HasVal(v) == v \notin {"?", "-"}
\* next position at which something has to be asked (or the end), and the device as known there
RECURSIVE Norm(_, _)
Norm(d, p) ==
    CASE p.ph = "desc" -> IF d.desc = "none" THEN <<d, p>> ELSE Norm(d, [p EXCEPT !.ph = "eps"])
      [] p.ph = "eps" -> IF d.eps = <<>> THEN <<d, p>> ELSE Norm(d, [p EXCEPT !.ph = "simple", !.i = 1])
      [] p.ph = "simple" -> IF p.i > Len(d.eps) THEN Norm(d, [p EXCEPT !.ph = "model", !.i = 1, !.k = 1])
                            ELSE IF d.eps[p.i].st = "new" THEN <<d, p>> ELSE Norm(d, [p EXCEPT !.i = @ + 1])
      [] p.ph = "model" ->
           IF p.i > Len(d.eps) \/ (p.k = 1 /\ d.model # "" /\ d.manuf # "") THEN <<d, [p EXCEPT !.ph = "end"]>>
           ELSE LET e == d.eps[p.i] IN
                IF ~e.basic THEN Norm(d, [p EXCEPT !.i = @ + 1, !.k = 1])
                ELSE IF p.k = 4
                THEN Norm([d EXCEPT !.model = IF HasVal(e.cmod) THEN e.cmod ELSE @,
                                    !.manuf = IF HasVal(e.cman) THEN e.cman ELSE @], [p EXCEPT !.i = @ + 1, !.k = 1])
                ELSE IF Missing(e, Reads[p.k]) = {} THEN Norm(d, [p EXCEPT !.k = @ + 1])
                ELSE <<d, p>>
      [] OTHER -> <<d, p>>

\* ---- time ---------------------------------------------------------------------------------------------
WantsToSend(o) == \/ iv[o].st = "run" /\ iv[o].at <= now
                  \/ gs[o] # <<>>
                  \/ \E r \in ToSet(rem) : r.o = o /\ ~r.sent
                  \/ \E q \in ToSet(par) : q[1] = o
Urgent == due # <<>> \/ \E o \in Objs : out[o] = NoReq /\ WantsToSend(o)
NextDeadline(t) == /\ \A o \in Objs : /\ out[o] # NoReq => out[o].dl >= t
                                      /\ iv[o].st = "run" /\ out[o] = NoReq /\ iv[o].at > now => iv[o].at >= t
                   /\ \A r \in ToSet(rem) : r.dl >= t
At(t) == t >= now /\ (t > now => ~Urgent /\ NextDeadline(t)) /\ now' = t
Free(o) == \A i \in 1..Len(due) : due[i][2] # o
FreeN(n) == Known(n) => Free(tab[n])

\* ---- joins ---------------------------------------------------------------------------------------------
ClearInterview(o) == IF out[o].what \in {"desc", "eps", "simple", "read"} THEN NoReq ELSE out[o]
ClearScan(o) == IF out[o].what = "groups" THEN NoReq ELSE out[o]
GroupEps(o) == SelectSeq([i \in 1..Len(obj[o].eps) |-> obj[o].eps[i]], LAMBDA e : e.groups)
\* a node is reported at an address; `rejoin`: it (re)joined, otherwise only its address became known
\* `no` is the object to be created if one is needed
Join(n, nwk, rejoin, no, t) ==
    /\ FreeN(n) /\ At(t)
    /\ IF ~Known(n) \/ BeingRemoved(tab[n])
       THEN /\ no \notin Objs
            /\ obj' = (no :> [n |-> n, nwk |-> nwk, desc |-> "none", eps |-> <<>>, model |-> "", manuf |-> ""]) @@ obj
            /\ tab' = (n :> no) @@ tab
            /\ iv' = (no :> StartedAt(t)) @@ iv
            /\ gs' = (no :> <<>>) @@ gs /\ out' = (no :> NoReq) @@ out
            /\ due' = Append(due, <<"joined", no>>)
       ELSE LET o == tab[n] moved == obj[o].nwk # nwk IN
            /\ no = o
            /\ obj' = [obj EXCEPT ![o].nwk = nwk]
            /\ UNCHANGED tab
            /\ IF moved \/ ~Done(o)
               THEN /\ due' = due \o (IF moved THEN <<<<"joined", o>>>> ELSE <<>>)
                              \o (IF Done(o) THEN <<<<"raw", o>>, <<"initialized", o>>>> ELSE <<>>)
                    /\ IF Done(o) THEN UNCHANGED <<iv, out>>
                       ELSE iv' = [iv EXCEPT ![o] = StartedAt(t)] /\ out' = [out EXCEPT ![o] = ClearInterview(o)]
                    /\ UNCHANGED gs
               ELSE IF rejoin
               THEN /\ gs' = [gs EXCEPT ![o] = GroupEps(o)] /\ out' = [out EXCEPT ![o] = ClearScan(o)]
                    /\ UNCHANGED <<iv, due>>
               ELSE UNCHANGED <<iv, gs, out, due>>
    /\ UNCHANGED <<rem, par>>
\* any packet from a known node that is not completely interviewed gets the interview going
Awake(n, t) == IF Known(n) /\ ~Done(tab[n]) /\ ~Interviewing(tab[n]) /\ ~BeingRemoved(tab[n])
               THEN iv' = [iv EXCEPT ![tab[n]] = StartedAt(t)] ELSE UNCHANGED iv
Traffic(n, t) ==
    /\ FreeN(n) /\ At(t) /\ Awake(n, t)
    /\ UNCHANGED <<obj, tab, gs, rem, par, out, due>>
Leaves(n, t) == /\ FreeN(n) /\ At(t) /\ due' = IF Known(n) THEN Append(due, <<"left", tab[n]>>) ELSE due
                /\ UNCHANGED <<obj, tab, iv, gs, rem, par, out>>
\* announcements to listeners
Announced(what, o, t) == /\ t = now
                         /\ \E i \in 1..Len(due) : /\ due[i] = <<what, o>> /\ \A j \in 1..(i - 1) : due[j][2] # o
                                                   /\ due' = RemoveAt(due, i)
                         /\ UNCHANGED <<now, obj, tab, iv, gs, rem, par, out>>

\* ---- removal --------------------------------------------------------------------------------------------
\* parents: sequence of objects whose neighbor tables list the node
RemoveNode(n, parents, t) ==
    /\ FreeN(n) /\ At(t)
    /\ IF ~Known(n) THEN UNCHANGED <<iv, rem, par, out, due>>
       ELSE LET o == tab[n] IN
            /\ iv' = [iv EXCEPT ![o] = Off] /\ out' = [out EXCEPT ![o] = ClearInterview(o)]
            /\ rem' = Append(rem, [o |-> o, dl |-> t + (IF obj[o].desc = "end" THEN LeaveLong ELSE LeaveShort), sent |-> FALSE])
            /\ par' = par \o (IF obj[o].desc = "end" THEN [i \in 1..Len(parents) |-> <<parents[i], n, Patience(parents[i])>>] ELSE <<>>)
            /\ due' = Append(due, <<"removed", o>>)
    /\ UNCHANGED <<obj, tab, gs>>
\* the i-th removal is over: the object is no longer in the table
EndRemoval(i) ==
    /\ rem' = RemoveAt(rem, i)
    /\ tab' = LET o == rem[i].o n == obj[o].n IN
              IF Known(n) /\ tab[n] = o THEN [x \in DOMAIN tab \ {n} |-> tab[x]] ELSE tab

\* ---- requests ---------------------------------------------------------------------------------------------
Sending(o, t) == o \in Objs /\ Free(o) /\ At(t) /\ out[o] = NoReq
RequestFor(o, what, ep, attrs, id, t, pat) == out' = [out EXCEPT ![o] = [what |-> what, ep |-> ep, attrs |-> attrs, dl |-> t + pat, id |-> id]]
Request(o, what, ep, attrs, id, t) == RequestFor(o, what, ep, attrs, id, t, Patience(o))
Pos(o) == [ph |-> iv[o].ph, i |-> iv[o].i, k |-> iv[o].k]
Ask(o, nwk, what, ep, attrs, id, t) ==
    /\ Sending(o, t) /\ iv[o].st = "run" /\ iv[o].at <= t /\ nwk = obj[o].nwk
    /\ LET x == Norm(obj[o], Pos(o)) d == x[1] p == x[2] IN
       /\ what = (CASE p.ph = "model" -> "read" [] OTHER -> p.ph)
       /\ p.ph # "end"
       /\ ep = (IF p.ph \in {"desc", "eps"} THEN 0 ELSE d.eps[p.i].id)
       /\ attrs = (IF p.ph = "model" THEN Missing(d.eps[p.i], Reads[p.k]) ELSE {})
       /\ obj' = [obj EXCEPT ![o] = d]
       /\ iv' = [iv EXCEPT ![o].ph = p.ph, ![o].i = p.i, ![o].k = p.k]
       /\ Request(o, what, ep, attrs, id, t)
    /\ UNCHANGED <<tab, gs, rem, par, due>>
\* nothing (more) to be asked: the interview is complete
Complete(o) ==
    /\ Free(o) /\ iv[o].st = "run" /\ iv[o].at <= now /\ out[o].what \notin {"desc", "eps", "simple", "read"}
    /\ LET x == Norm(obj[o], Pos(o)) IN
       /\ x[2].ph = "end"
       /\ obj' = [obj EXCEPT ![o] = x[1]]
    /\ iv' = [iv EXCEPT ![o] = Off]
    /\ tab' = (obj[o].n :> o) @@ tab
    /\ due' = due \o <<<<"raw", o>>, <<"initialized", o>>>>
    /\ UNCHANGED <<now, gs, rem, par, out>>
AskGroups(o, nwk, ep, id, t) ==
    /\ Sending(o, t) /\ gs[o] # <<>> /\ Head(gs[o]).id = ep /\ nwk = obj[o].nwk
    /\ Request(o, "groups", ep, {}, id, t) /\ UNCHANGED <<obj, tab, iv, gs, rem, par, due>>
AskLeave(o, nwk, n, id, t) ==
    /\ Sending(o, t) /\ nwk = obj[o].nwk
    /\ IF n = obj[o].n
       THEN \E i \in 1..Len(rem) : /\ rem[i].o = o /\ ~rem[i].sent /\ \A j \in 1..(i - 1) : rem[j].o = o => rem[j].sent
                                   /\ rem' = [rem EXCEPT ![i].sent = TRUE] /\ Request(o, "leave", 0, {}, id, t)
                                   /\ UNCHANGED par
       ELSE \E i \in 1..Len(par) : /\ par[i][1] = o /\ par[i][2] = n /\ \A j \in 1..(i - 1) : ~(par[j][1] = o /\ par[j][2] = n)
                                   /\ par' = RemoveAt(par, i) /\ RequestFor(o, "parent", 0, {}, id, t, par[i][3])
                                   /\ UNCHANGED rem
    /\ UNCHANGED <<obj, tab, iv, gs, due>>

\* ---- their outcomes ----------------------------------------------------------------------------------------
\* an attempt has failed: wait and start over, or give up
AttemptFailed(o, t) == IF iv[o].tries <= 1
                       THEN iv' = [iv EXCEPT ![o] = Off] /\ due' = Append(due, <<"failed", o>>)
                       ELSE iv' = [iv EXCEPT ![o] = [Off EXCEPT !.st = "run", !.tries = iv[o].tries - 1, !.at = t + Pause]] /\ UNCHANGED due
Proceed(o, p, t) == iv' = [iv EXCEPT ![o].ph = p.ph, ![o].i = p.i, ![o].k = p.k, ![o].at = t] /\ UNCHANGED due
SetAttr(e, a, v) == IF v \in {"!", "?"} THEN e ELSE IF a = "model" THEN [e EXCEPT !.cmod = v] ELSE [e EXCEPT !.cman = v]
Answered(e, vals) == LET f == SetAttr(e, "model", IF "model" \in DOMAIN vals THEN vals["model"] ELSE "?")
                     IN SetAttr(f, "manufacturer", IF "manufacturer" \in DOMAIN vals THEN vals["manufacturer"] ELSE "?")
NewEp(i) == [id |-> i, st |-> "new", basic |-> FALSE, groups |-> FALSE, cman |-> "?", cmod |-> "?"]

\* kind: "ok" (data is what it says), "status" (an error status), "timeout", "fail" (not delivered or
\* not understood), "crash" (anything unexpected)
InterviewOutcome(o, kind, data, t) ==
    LET p == Pos(o) r == out[o] IN
    /\ out' = [out EXCEPT ![o] = NoReq]
    /\ CASE kind = "crash" -> iv' = [iv EXCEPT ![o] = Off] /\ due' = Append(due, <<"failed", o>>) /\ UNCHANGED obj
         [] kind = "ok" /\ r.what = "desc" -> obj' = [obj EXCEPT ![o].desc = data] /\ Proceed(o, [p EXCEPT !.ph = "eps"], t)
         [] kind = "ok" /\ r.what = "eps" ->
              /\ obj' = [obj EXCEPT ![o].eps = [i \in 1..Len(data) |-> NewEp(data[i])]]
              /\ Proceed(o, [p EXCEPT !.ph = "simple", !.i = 1], t)
         [] kind = "ok" /\ r.what = "simple" ->
              /\ obj' = [obj EXCEPT ![o].eps[p.i].st = data.st, ![o].eps[p.i].basic = data.basic, ![o].eps[p.i].groups = data.groups]
              /\ Proceed(o, [p EXCEPT !.i = @ + 1], t)
         [] kind = "ok" /\ r.what = "read" ->
              /\ obj' = [obj EXCEPT ![o].eps[p.i] = Answered(@, data)]
              /\ Proceed(o, [p EXCEPT !.k = @ + 1], t)
         [] kind = "status" /\ r.what = "read" -> UNCHANGED obj /\ Proceed(o, [p EXCEPT !.k = @ + 1], t)
         [] kind = "timeout" /\ r.what = "read" /\ p.k = 1 -> UNCHANGED obj /\ Proceed(o, [p EXCEPT !.k = @ + 1], t)
         [] OTHER -> AttemptFailed(o, t) /\ UNCHANGED obj
    /\ UNCHANGED <<tab, gs, rem, par>>
RequestOutcome(o, kind, data, t) ==
    CASE out[o].what \in {"desc", "eps", "simple", "read"} -> InterviewOutcome(o, kind, data, t)
      [] out[o].what = "groups" -> /\ out' = [out EXCEPT ![o] = NoReq]
                                   /\ gs' = [gs EXCEPT ![o] = IF kind = "crash" THEN <<>> ELSE Tail(@)]
                                   /\ UNCHANGED <<obj, tab, iv, rem, par, due>>
      [] out[o].what = "leave" -> /\ out' = [out EXCEPT ![o] = NoReq]
                                  /\ \E i \in 1..Len(rem) : rem[i].o = o /\ rem[i].sent
                                        /\ (\A j \in 1..(i - 1) : ~(rem[j].o = o /\ rem[j].sent)) /\ EndRemoval(i)
                                  /\ UNCHANGED <<obj, iv, gs, par, due>>
      [] OTHER -> out' = [out EXCEPT ![o] = NoReq] /\ UNCHANGED <<obj, tab, iv, gs, rem, par, due>>
\* not sent, or the radio failed
SendFailed(o, id, kind, t) == o \in Objs /\ Free(o) /\ At(t) /\ out[o].id = id /\ out[o] # NoReq /\ kind \in {"fail", "crash"}
                              /\ RequestOutcome(o, kind, 0, t)
\* a reply: to the request in progress, or too late (then it is nothing but a sign of life)
Reply(o, id, kind, data, t) ==
    /\ o \in Objs /\ Free(o) /\ At(t) /\ kind \in {"ok", "status", "fail"}
    /\ IF out[o] = NoReq \/ out[o].id # id
       THEN Awake(obj[o].n, t) /\ UNCHANGED <<obj, tab, gs, rem, par, out, due>>
       ELSE IF out[o].what = "parent"
       THEN Awake(obj[o].n, t) /\ out' = [out EXCEPT ![o] = NoReq] /\ UNCHANGED <<obj, tab, gs, rem, par, due>>
       ELSE RequestOutcome(o, kind, data, t)
Expire(o) == /\ Free(o) /\ out[o] # NoReq /\ At(out[o].dl) /\ RequestOutcome(o, "timeout", 0, out[o].dl)
\* a removal has waited long enough
RemovalTimeout(i) ==
    /\ Free(rem[i].o) /\ At(rem[i].dl) /\ EndRemoval(i)
    /\ out' = IF rem[i].sent THEN [out EXCEPT ![rem[i].o] = NoReq] ELSE out
    /\ UNCHANGED <<obj, iv, gs, par, due>>

\* ---- what everybody can see ------------------------------------------------------------------------------------
Quiet(t, snap) ==
    /\ At(t) /\ ~(due # <<>>) /\ (\A o \in Objs : ~(out[o] = NoReq /\ WantsToSend(o)))
    /\ DOMAIN snap = DOMAIN tab
    /\ \A n \in DOMAIN tab : LET o == tab[n] s == snap[n] IN
         /\ s.o = o /\ s.nwk = obj[o].nwk /\ s.init = Done(o) /\ s.busy = Interviewing(o)
         \* an interview that waits for its turn to ask has already noted what it found before
         /\ LET d == IF iv[o].st = "run" /\ iv[o].at <= now THEN Norm(obj[o], Pos(o))[1] ELSE obj[o] IN
            s.model = d.model /\ s.manuf = d.manuf
    /\ UNCHANGED <<obj, tab, iv, gs, rem, par, out, due>>

\* ---- properties of the specification ------------------------------------------------------------------------
\* one record per node, with its address; nobody outside of the table is interviewed
OneRecord == \A n \in DOMAIN tab : obj[tab[n]].n = n
OnlyTable == \A o \in Objs : Interviewing(o) => Known(obj[o].n) /\ tab[obj[o].n] = o
NotWhileRemoved == \A o \in Objs : ~(Interviewing(o) /\ BeingRemoved(o))
\* removals end
RemovalsBounded == \A r \in ToSet(rem) : r.dl >= now
=============================================================================
