----------------------------------- MODULE Zcl -----------------------------------
(* Attribute cache of one cluster of a device and the answers the coordinator owes to devices.   *)
(* Operations (read, write, configure) send one request and act on the answer in one go when     *)
(* their task resumes; reports act at once.  Acting produces a list of events (`todo`) that must  *)
(* come next, in order.  Values are rendered as text; `typed` says that a value has the           *)
(* attribute's own type (always, when it fits).                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES
  cfg,    \* [custom, consts: <<[id, val]..>>, mspec: ids of manufacturer attributes, manuf, local: values provided to devices]
  cache,  \* attribute -> [val, typed]
  unsup,  \* attributes the device does not have
  ops,    \* id -> [op, ids, phase, ans, ok, bad, out]
  todo,   \* events that must come next
  due     \* answers owed to devices: number -> [data, ...]
zvars == <<cfg, cache, unsup, ops, todo, due>>

Empty == [x \in {} |-> 0]
Init0(c) == cfg = c /\ cache = Empty /\ unsup = {} /\ ops = Empty /\ todo = <<>> /\ due = Empty

IsConst(id) == \E k \in 1..Len(cfg.consts) : cfg.consts[k].id = id
ConstOf(id) == cfg.consts[CHOOSE k \in 1..Len(cfg.consts) : cfg.consts[k].id = id].val
Lo(n) == n % 256
Hi(n) == n \div 256
Without(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
UNSUPPORTED == 134

\* ---- acting on records, folded from left to right -------------------------------------------------------------
St0 == [c |-> cache, u |-> unsup, ev |-> <<>>, ok |-> Empty, bad |-> Empty]
Put(st, id, val, typed) == [st EXCEPT !.c = (id :> [val |-> val, typed |-> typed]) @@ @,
                                      !.ev = Append(@, [k |-> "updated", id |-> id, val |-> val, typed |-> typed])]
Mark(st, id) == IF id \in st.u THEN st ELSE [st EXCEPT !.u = @ \cup {id}, !.ev = Append(@, [k |-> "marked", id |-> id, val |-> "", typed |-> TRUE])]
Unmark(st, id) == IF id \notin st.u THEN st ELSE [st EXCEPT !.u = @ \ {id}, !.ev = Append(@, [k |-> "unmarked", id |-> id, val |-> "", typed |-> TRUE])]
Clear(st, id) == IF id \notin DOMAIN st.c THEN st
                 ELSE [st EXCEPT !.c = Without(@, {id}), !.ev = Append(@, [k |-> "cleared", id |-> id, val |-> "", typed |-> TRUE])]
ReadRec(st, r) == IF r.st = 0 THEN [Unmark(Put(st, r.id, r.val, r.fits), r.id) EXCEPT !.ok = (r.id :> r.val) @@ @]
                  ELSE [IF r.st = UNSUPPORTED THEN Mark(st, r.id) ELSE st EXCEPT !.bad = (r.id :> r.st) @@ @]
RECURSIVE ReadAll(_, _)
ReadAll(st, rs) == IF rs = <<>> THEN st ELSE ReadAll(ReadRec(st, Head(rs)), Tail(rs))
RECURSIVE PutAll(_, _)
PutAll(st, rs) == IF rs = <<>> THEN st ELSE PutAll(Put(st, Head(rs).id, Head(rs).val, Head(rs).fits), Tail(rs))
RECURSIVE MarkAll(_, _)
MarkAll(st, ids) == IF ids = <<>> THEN st ELSE MarkAll(Mark(st, Head(ids)), Tail(ids))
RECURSIVE UnmarkAll(_, _)
UnmarkAll(st, ids) == IF ids = <<>> THEN st ELSE UnmarkAll(Unmark(st, Head(ids)), Tail(ids))

IdsOf(rs) == [k \in 1..Len(rs) |-> rs[k].id]
ConstRecs(ids) == [k \in 1..Len(SelectSeq(ids, IsConst)) |->
                      LET id == SelectSeq(ids, IsConst)[k] IN [id |-> id, st |-> 0, val |-> ConstOf(id), fits |-> TRUE]]
Wire(ids) == IF cfg.custom THEN SelectSeq(ids, LAMBDA id : ~IsConst(id)) ELSE ids

\* ---- operations ----------------------------------------------------------------------------------------------
\* what a read still has to ask for
Asked(o) == IF ~(o.allow \/ o.only) THEN o.ids
            ELSE SelectSeq(o.ids, LAMBDA id : id \notin DOMAIN cache /\ id \notin unsup)
Hits(o) == IF o.allow \/ o.only THEN {id \in Range(o.ids) : id \in DOMAIN cache} ELSE {}
Misses(o) == IF o.allow \/ o.only THEN {id \in Range(o.ids) : id \notin DOMAIN cache /\ id \in unsup} ELSE {}
\* a write is refused at the first attribute that cannot be written: unknown name, value of another type
FirstBad(as) == SelectInSeq(as, LAMBDA a : a.kind \in {"KeyError", "ValueError"})
Usable(as) == SelectSeq(as, LAMBDA a : a.kind = "ok")
Manuf(o, ids) == IF o.manuf # -1 THEN o.manuf
                 ELSE IF cfg.mall \/ \E id \in Range(ids) : id \in Range(cfg.mspec) THEN cfg.manuf ELSE -1
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Frame(cmd, manuf, body) == [cmd |-> cmd, manuf |-> manuf, body |-> body]
CmdOf == [read |-> 0, write |-> 2, undivided |-> 3, conf |-> 6]
Request(o, ids) == Frame(CmdOf[o.op], Manuf(o, ids),
                         IF o.op = "read" THEN Flat([k \in 1..Len(ids) |-> <<Lo(ids[k]), Hi(ids[k])>>])
                         ELSE Flat([k \in 1..Len(Usable(o.attrs)) |-> Usable(o.attrs)[k].bytes]))

NoAns == [kind |-> "none", recs |-> <<>>, status |-> 0]
New(o) ==
    LET base == [o |-> o, ids |-> <<>>, consts |-> <<>>, phase |-> "queued", radio |-> FALSE, ans |-> NoAns, ok |-> Empty, bad |-> Empty, out |-> ""] IN
    IF o.op = "read" THEN
        LET q == IF o.only THEN <<>> ELSE Asked(o)
            ok == [id \in Hits(o) |-> cache[id].val]
            bad == [id \in Misses(o) |-> UNSUPPORTED] IN
        IF q = <<>> THEN [base EXCEPT !.phase = "done", !.ok = ok, !.bad = bad, !.out = "ok"]
        ELSE IF Wire(q) = <<>> THEN [base EXCEPT !.consts = ConstRecs(q), !.phase = "resuming", !.ans = [kind |-> "recs", recs |-> <<>>, status |-> 0], !.ok = ok, !.bad = bad]
        ELSE [base EXCEPT !.ids = Wire(q), !.consts = IF cfg.custom THEN ConstRecs(q) ELSE <<>>, !.ok = ok, !.bad = bad]
    ELSE LET b == FirstBad(o.attrs) IN
         IF b # 0 THEN [base EXCEPT !.phase = "done", !.out = o.attrs[b].kind]
         ELSE [base EXCEPT !.ids = IdsOf(Usable(o.attrs))]

Call(i, o) == /\ todo = <<>> /\ i \notin DOMAIN ops
              /\ ops' = (i :> New(o)) @@ ops
              /\ UNCHANGED <<cfg, cache, unsup, todo, due>>
Sent(i, frame) ==
    /\ todo = <<>> /\ i \in DOMAIN ops /\ ops[i].phase = "queued"
    /\ frame = Request(ops[i].o, ops[i].ids)
    /\ ops' = [ops EXCEPT ![i].phase = "sent"]
    /\ UNCHANGED <<cfg, cache, unsup, todo, due>>
Radio(i, ok) ==
    /\ todo = <<>> /\ i \in DOMAIN ops /\ ops[i].phase = "sent"
    /\ ops' = [ops EXCEPT ![i] = IF ok THEN [@ EXCEPT !.radio = TRUE, !.phase = IF ops[i].ans.kind = "none" THEN "sent" ELSE "resuming"]
                                 ELSE [@ EXCEPT !.phase = "done", !.out = "DeliveryError"]]
    /\ UNCHANGED <<cfg, cache, unsup, todo, due>>
\* an answer arrives; only the first one to a waiting request counts
Answer(i, a) ==
    /\ todo = <<>> /\ i \in DOMAIN ops
    /\ ops' = IF ops[i].phase = "sent" /\ ops[i].ans.kind = "none"
              THEN [ops EXCEPT ![i].ans = a, ![i].phase = IF ops[i].radio THEN "resuming" ELSE "sent"]
              ELSE ops
    /\ UNCHANGED <<cfg, cache, unsup, todo, due>>
Acted(p) ==
    LET a == p.ans o == p.o
        st == [St0 EXCEPT !.ok = p.ok, !.bad = p.bad]
        fail == [k \in 1..Len(p.ids) |-> [id |-> p.ids[k], st |-> a.status, val |-> "", fits |-> TRUE]] IN
    CASE o.op = "read" -> IF a.kind = "recs" THEN ReadAll(st, p.consts \o a.recs)
                          ELSE IF cfg.custom /\ cfg.consts # <<>> THEN ReadAll(st, p.consts \o fail)
                          ELSE [st EXCEPT !.bad = [id \in Range(p.ids) |-> a.status] @@ @]
      [] o.op = "write" -> IF a.kind # "recs" THEN st
                           ELSE LET bad == IF Len(a.recs) = 1 /\ a.recs[1].st = 0 THEN {} ELSE {r.id : r \in {x \in Range(a.recs) : x.st # 0}} IN
                                PutAll(st, SelectSeq(Usable(o.attrs), LAMBDA x : x.id \notin bad))
      [] o.op = "conf" -> IF a.kind # "recs" THEN st
                          ELSE IF Len(a.recs) = 1 /\ a.recs[1].st = 0 THEN UnmarkAll(st, IdsOf(o.attrs))
                          ELSE UnmarkAll(MarkAll(st, IdsOf(SelectSeq(a.recs, LAMBDA r : r.st = UNSUPPORTED))),
                                         IdsOf(SelectSeq(a.recs, LAMBDA r : r.st = 0 /\ r.id # -1)))
      [] OTHER -> st
Act(st) == cache' = st.c /\ unsup' = st.u /\ todo' = st.ev
Resume(i) ==
    /\ todo = <<>> /\ i \in DOMAIN ops /\ ops[i].phase = "resuming"
    /\ LET st == Acted(ops[i]) IN
       /\ Act(st)
       /\ ops' = [ops EXCEPT ![i].phase = "done", ![i].out = "ok", ![i].ok = st.ok, ![i].bad = st.bad]
    /\ UNCHANGED <<cfg, due>>
TimedOut(i) ==
    /\ todo = <<>> /\ i \in DOMAIN ops /\ ops[i].phase = "sent" /\ ops[i].radio
    /\ ops' = [ops EXCEPT ![i].phase = "done", ![i].out = "TimeoutError"]
    /\ UNCHANGED <<cfg, cache, unsup, todo, due>>
\* pairs of attribute and value (status) as a function
Pairs(ps) == [id \in {p[1] : p \in Range(ps)} |-> (CHOOSE p \in Range(ps) : p[1] = id)[2]]
Result(i, out, ok, bad) ==
    /\ todo = <<>> /\ i \in DOMAIN ops /\ ops[i].phase = "done" /\ ops[i].out = out
    /\ IF out = "ok" /\ ops[i].o.op = "read" THEN Pairs(ok) = ops[i].ok /\ Pairs(bad) = ops[i].bad ELSE ok = <<>> /\ bad = <<>>
    /\ ops' = [ops EXCEPT ![i].phase = "told"]
    /\ UNCHANGED <<cfg, cache, unsup, todo, due>>

\* the library's user tells about an attribute
Local(what, id, val, typed) ==
    /\ todo = <<>>
    /\ Act(CASE what = "update" -> Put(St0, id, val, typed) [] what = "clear" -> Clear(St0, id)
             [] what = "mark" -> Mark(St0, id) [] OTHER -> Unmark(St0, id))
    /\ UNCHANGED <<cfg, ops, due>>
\* the device object is replaced by one of a quirk, which takes over the values
Adopt == /\ todo = <<>> /\ unsup' \in {unsup, {}}
         /\ UNCHANGED <<cfg, cache, ops, todo, due>>
\* what is seen from outside
Obs(vals, by_id, by_name) ==
    /\ todo = <<>>
    /\ Pairs(vals) = [id \in DOMAIN cache |-> cache[id].val]
    /\ Range(by_id) = unsup /\ Range(by_name) = {id \in unsup : id \in Range(cfg.named)}
    /\ UNCHANGED zvars
Event(e) == /\ todo # <<>> /\ e = Head(todo)
            /\ todo' = Tail(todo)
            /\ UNCHANGED <<cfg, cache, unsup, ops, due>>

\* ---- messages from the device ----------------------------------------------------------------------------------------
\* `m.here`: for the cluster that is looked at; answers carry the sequence number of the question
Fc(m, general) == (IF general THEN 0 ELSE 1) + (IF m.client THEN 8 ELSE 0) + 16
Provided(c, id) == \E k \in 1..Len(cfg.local) : cfg.local[k].cl = c /\ cfg.local[k].id = id
ProvidedBytes(c, id) == cfg.local[CHOOSE k \in 1..Len(cfg.local) : cfg.local[k].cl = c /\ cfg.local[k].id = id].bytes
ReadOut(c, ids) == Flat([k \in 1..Len(ids) |-> <<Lo(ids[k]), Hi(ids[k])>> \o (IF Provided(c, ids[k]) THEN <<0>> \o ProvidedBytes(c, ids[k]) ELSE <<UNSUPPORTED>>)])
DefaultRsp(m, st) == <<Fc(m, TRUE), m.tsn, 11, m.cmd, st>>
Owed(m) ==
    CASE m.kind = "report" -> IF m.ddr THEN <<>> ELSE DefaultRsp(m, 0)
      [] m.kind = "readreq" -> <<Fc(m, TRUE), m.tsn, 1>> \o ReadOut(m.cl, m.ids)
      [] m.kind = "zone" -> IF m.ddr \/ m.cmd # 0 THEN <<>> ELSE DefaultRsp(m, 0)
      [] m.kind = "query" -> IF m.updating THEN <<>> ELSE <<Fc(m, FALSE), m.tsn, 2, 152>>
      [] m.kind = "block" -> IF m.updating THEN <<>> ELSE <<Fc(m, FALSE), m.tsn, 5, 149>>
      [] OTHER -> <<>>
Received(n, m) ==
    /\ todo = <<>> /\ n \notin DOMAIN due
    /\ due' = IF Owed(m) = <<>> THEN due ELSE (n :> [ep |-> m.ep, cl |-> m.cl, data |-> Owed(m)]) @@ due
    /\ Act(IF m.kind = "report" /\ m.here THEN PutAll(St0, m.recs) ELSE St0)
    /\ UNCHANGED <<cfg, ops>>
Answered(ep, dst_ep, cl, data) ==
    /\ todo = <<>> /\ ep = dst_ep
    /\ \E n \in DOMAIN due : due[n].ep = ep /\ due[n].cl = cl /\ due[n].data = data /\ due' = Without(due, {n})
    /\ UNCHANGED <<cfg, cache, unsup, ops, todo>>
\* at the end nothing is left to do
End == /\ todo = <<>> /\ due = Empty /\ \A i \in DOMAIN ops : ops[i].phase = "told"
       /\ UNCHANGED zvars

\* ---- properties of the specification ----------------------------------------------------------------------------------
OneInFlight == Cardinality({i \in DOMAIN ops : ops[i].phase = "sent"}) <= 1
=============================================================================
