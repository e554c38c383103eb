---------------------------- MODULE Transfer_Trace ----------------------------
EXTENDS Transfer, Offer, TraceKit, SequencesExt
VARIABLE known
trvars == <<tvars, known, tid, l>>
TInit == tid \in 1..NTraces /\ l = 2 /\ Init0(ToSet(Traces[tid][1].devs)) /\ known = [i \in {} |-> 0]
Keep == UNCHANGED known
\* an update that ends at the very moment when a request comes in
Matches(p) == /\ p.d = Ev.d /\ p.kind = Ev.kind /\ p.tsn = Ev.tsn
              /\ LET a == Answer(p, known) IN
                 /\ Ev.kind \in {"block", "query"} => Ev.status = a.status
                 /\ Ev.kind = "block" /\ a.status = Success => Ev.data = a.data /\ Ev.off = p.off
                 /\ (Ev.kind \in {"block", "query"} /\ a.status = Success) \/ Ev.kind = "end" => Ev.manuf = known[p.by].hdr.manuf /\ Ev.type = known[p.by].hdr.type /\ Ev.version = known[p.by].hdr.version
                 /\ Ev.kind = "query" /\ a.status = Success => Ev.size = known[p.by].hdr.size
TNext == \/ /\ IsEvent("start") /\ Start(Ev.d, Ev.id, Ev.img, Ev.hdr, Ev.t)
            /\ known' = [i \in DOMAIN known \cup {Ev.id} |-> IF i = Ev.id THEN [img |-> Ev.img, hdr |-> Ev.hdr, meta |-> Ev.meta, force |-> Ev.force] ELSE known[i]]
         \/ /\ IsEvent("rx")
            /\ Request(Ev.d, Ev.n, Ev.kind, Ev.tsn, Ev.off, Ev.max,
                       Ev.kind = "query" /\ Running(Ev.d) /\ (known[up[Ev.d].id].force \/ Fits(known[up[Ev.d].id].meta, Ev.q)), Ev.status, Ev.t)
            /\ Keep
         \/ IsEvent("tx") /\ Ev.kind = "notify" /\ Notify(Ev.d, Ev.t) /\ Keep
         \/ IsEvent("tx") /\ Ev.kind = "read" /\ ReadBack(Ev.d, Ev.t) /\ Keep
         \/ IsEvent("tx") /\ Ev.kind \in {"block", "query", "end"} /\ (\E p \in pend : Matches(p) /\ Answered(p, Ev.t)) /\ Keep
         \/ IsEvent("sent") /\ (\E p \in fly : p.d = Ev.d /\ p.kind = Ev.kind /\ (Ev.kind = "notify" \/ p.tsn = Ev.tsn) /\ Sent(p, Ev.ok, Ev.cached, Ev.t, known)) /\ Keep
         \/ IsEvent("progress") /\ Ev.pct * Ev.total <= 100000 * Ev.cur + Ev.total /\ (Ev.pct + 2) * Ev.total > 100000 * Ev.cur /\ Progress(Ev.d, Ev.cur, Ev.total, Ev.t) /\ Keep
         \/ IsEvent("cancel") /\ Cancel(Ev.d, Ev.id, Ev.t) /\ Keep
         \/ IsEvent("cleared") /\ Cleared(Ev.d, Ev.t) /\ Keep
         \/ IsEvent("returned") /\ Returned(Ev.d, Ev.id, Ev.status, Ev.t) /\ Keep
         \/ IsEvent("quiet") /\ AllDone(Ev.t) /\ Keep
         \/ More /\ Silent /\ (\E d \in DOMAIN up : TimesUp(d) /\ up[d].dl <= Ev.t) /\ Keep
TSpec == TInit /\ [][TNext]_trvars
=============================================================================
