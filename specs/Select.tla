-------------------------------- MODULE Select --------------------------------
(* Which firmware images are offered to devices (C23).                         *)
(*                                                                             *)
(* A query looks at the images announced by all providers that serve the       *)
(* device.  Indexes are loaded one after the other, each at most once a day,   *)
(* and shared by the queries that need one at the same time; so are the files. *)
EXTENDS Offer, TLC
CONSTANTS Timeout,      \* ms for an index or a file
          Day           \* ms an index is good for
VARIABLES now, last, loading, known, fw, fetching, q, ready
svars == <<now, last, loading, known, fw, fetching, q, ready>>
\* last[p]: when its index was last asked for (-1: never);  loading[p]: -1, or when that was
\* known: images announced;  fw: what was downloaded for some of them;  fetching: images being downloaded, since when
\* q: queries under way;  got: what was downloaded for one.  Others see it once that one is complete
Init0(P) == /\ now = 0
            /\ last = [p \in P |-> -1] /\ loading = [p \in P |-> -1]
            /\ known = {}
            /\ fw = [m \in {} |-> 0] /\ fetching = [m \in {} |-> 0]
            /\ q = [i \in {} |-> 0]
            /\ ready = {}
But(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

(* what an entry e of an index of a provider means *)
Image(e) == [version |-> e.version, manuf |-> e.manuf, type |-> e.type, size |-> e.size, alg |-> "", sum |-> e.sum, names |-> e.names, models |-> e.models,
             minhw |-> e.minhw, maxhw |-> e.maxhw, mincur |-> e.mincur, maxcur |-> e.maxcur, spec |-> e.spec, url |-> e.url]
Only(e, alg, keep) == LET i == Image(e) IN
  [i EXCEPT !.alg = alg, !.sum = IF "sum" \in keep THEN @ ELSE -1, !.size = IF "size" \in keep THEN @ ELSE -1,
            !.manuf = IF "id" \in keep THEN @ ELSE -1, !.type = IF "id" \in keep THEN @ ELSE -1,
            !.names = IF "names" \in keep THEN @ ELSE <<>>,
            !.models = IF "models" \in keep THEN @ ELSE IF "model" \in keep THEN <<@[1]>> ELSE IF "model?" \in keep /\ @ # <<>> THEN <<@[1]>> ELSE <<>>,
            !.minhw = IF "hw" \in keep THEN @ ELSE -1, !.maxhw = IF "hw" \in keep THEN @ ELSE -1,
            !.mincur = IF "cur" \in keep THEN @ ELSE -1, !.maxcur = IF "cur" \in keep THEN @ ELSE -1,
            !.spec = IF "spec" \in keep THEN @ ELSE -1]
Announced(kind, e) ==
  CASE kind \in {"zigpy", "zigpylocal"} -> {Only(e, "sha3-256", {"sum", "size", "id", "names", "models", "hw", "cur", "spec"})}
    [] kind \in {"z2m", "z2mlocal"} -> {Only(e, "sha512", {"sum", "size", "id", "names", "model?", "cur"})}
    [] kind = "ikea" -> IF e.type \in {8704, 8710} \/ e.odd THEN {}        \* bricking;  for the gateway
                        ELSE IF e.old THEN {Only(e, "signed", {"size", "id"})}
                        ELSE {[Only(e, "sha3-256", {"sum", "id"}) EXCEPT !.manuf = 4476]}
    [] kind = "ledvance" -> {Only(e, "sha256", {"sum", "size", "id", "model"})}
    [] kind = "salus" -> IF e.odd THEN {} ELSE {Only(e, "tar", {"model"})}
    [] kind = "sonoff" -> {Only(e, "", {"size", "id", "model"})}
    [] kind \in {"inovelli", "thirdreality"} -> {Only(e, "", {"id", "model"})}
    [] kind = "folder" -> {Only(e, "sha1", {"sum", "size", "id", "hw"})}

(* is the file d what was announced?  d: got, parses, size, sum, inner, intact (its container), manuf, type, minhw, maxhw *)
Genuine(m, d) == /\ d.got /\ d.parses
                 /\ m.alg \in {"signed", "tar"} => d.intact
                 /\ m.size # -1 => d.size = m.size
                 /\ m.sum # -1 => d.sum = m.sum
\* with the restrictions of its contents
Eff(m, f) == IF m \notin DOMAIN f THEN m
             ELSE [m EXCEPT !.manuf = IF @ = -1 THEN f[m].manuf ELSE @, !.type = IF @ = -1 THEN f[m].type ELSE @,
                            !.minhw = IF @ = -1 THEN f[m].minhw ELSE @, !.maxhw = IF @ = -1 THEN f[m].maxhw ELSE @]

Fresh(p, la, t) == la[p] # -1 /\ t - la[p] < Day
\* indexes that are there need not be waited for
RECURSIVE Skip(_, _, _, _)
Skip(todo, la, lo, t) == IF todo # <<>> /\ lo[Head(todo)] = -1 /\ Fresh(Head(todo), la, t) THEN Skip(Tail(todo), la, lo, t) ELSE todo
Moved(x, la, lo, t) == IF x.sel THEN x ELSE [x EXCEPT !.todo = Skip(@, la, lo, t)]
MoveAll(qs, la, lo, t) == [i \in DOMAIN qs |-> Moved(qs[i], la, lo, t)]
Ready(i) == q[i].sel /\ q[i].wait = {}
Needs(i) == ~q[i].sel /\ q[i].todo # <<>>
Due == \/ \E i \in DOMAIN q : Ready(i)
       \/ \E i \in DOMAIN q : ~q[i].sel /\ (q[i].todo = <<>> \/ loading[Head(q[i].todo)] = -1)
       \/ \E i \in DOMAIN q : q[i].sel /\ \E m \in q[i].wait : m \notin DOMAIN fetching
Overdue(t) == \/ \E p \in DOMAIN loading : loading[p] # -1 /\ loading[p] + Timeout < t
              \/ \E m \in DOMAIN fetching : fetching[m] + Timeout < t
Time(t) == t >= now /\ (t > now => ~Due) /\ ~Overdue(t) /\ now' = t

\* provs: the providers in order, with the manufacturers they serve (none: all)
Serves(pr, id) == pr.manufs = <<>> \/ In(id, pr.manufs)
Query(i, query, devid, provs, t) ==
  /\ Time(t)
  /\ LET mine == SelectSeq(provs, LAMBDA pr : Serves(pr, devid))
         x == [todo |-> [k \in 1..Len(mine) |-> mine[k].p], sel |-> FALSE, query |-> query, ups |-> {}, downs |-> {}, wait |-> {}, got |-> [m \in {} |-> 0]]
     IN q' = With(q, i, Moved(x, last, loading, t))
  /\ UNCHANGED <<last, loading, known, fw, fetching, ready>>
\* all indexes are there
Choose(i) == /\ ~q[i].sel /\ q[i].todo = <<>>
             /\ LET c == {m \in known : Compatible(Eff(m, fw), q[i].query)}
                    u == {m \in c : Newer(m, q[i].query)}
                IN q' = [q EXCEPT ![i].sel = TRUE, ![i].ups = u, ![i].downs = c \ u, ![i].wait = {m \in u : m \notin DOMAIN fw}]
             /\ UNCHANGED <<now, last, loading, known, fw, fetching, ready>>
\* all files are there
Keep(i) == /\ Ready(i) /\ DOMAIN q[i].got \ DOMAIN fw # {}
           /\ fw' = fw @@ q[i].got
           /\ UNCHANGED <<now, last, loading, known, fetching, q, ready>>
Load(p, t) == /\ Time(t)
              /\ loading[p] = -1
              /\ \E i \in DOMAIN q : Needs(i) /\ Head(q[i].todo) = p
              /\ loading' = [loading EXCEPT ![p] = t]
              /\ UNCHANGED <<last, known, fw, fetching, q, ready>>
\* ends with these images more
Ended(p, images) == /\ loading[p] # -1
                    /\ last' = [last EXCEPT ![p] = loading[p]]
                    /\ loading' = [loading EXCEPT ![p] = -1]
                    /\ known' = known \cup images
                    /\ q' = MoveAll(q, last', loading', now')
                    /\ UNCHANGED <<fw, fetching, ready>>
Loaded(p, kind, ok, entries, t) ==
  /\ Time(t)
  /\ Ended(p, IF ok THEN UNION {Announced(kind, entries[k]) : k \in 1..Len(entries)} ELSE {})
Fetch(url, t) == /\ Time(t)
                 /\ \E i \in DOMAIN q : \E m \in q[i].wait : m.url = url /\ m \notin DOMAIN fetching /\ fetching' = With(fetching, m, t)
                 /\ UNCHANGED <<last, loading, known, fw, q, ready>>
FetchEnded(m, ok, d) ==
  /\ fetching' = But(fetching, m)
  /\ q' = [i \in DOMAIN q |-> IF m \notin q[i].wait THEN q[i]
                              ELSE LET x == [q[i] EXCEPT !.wait = @ \ {m}, !.got = IF ok THEN With(@, m, d) ELSE @] IN
                                   IF ok /\ Compatible(Eff(m, x.got), x.query) THEN x ELSE [x EXCEPT !.ups = @ \ {m}]]
  /\ UNCHANGED <<last, loading, known, fw, ready>>
Fetched(url, d, t) == /\ Time(t)
                      /\ \E m \in DOMAIN fetching : m.url = url /\ FetchEnded(m, Genuine(m, d), d)
TooSlow == \/ \E p \in DOMAIN loading : /\ loading[p] # -1 /\ loading[p] + Timeout >= now
                                        /\ loading[p] + Timeout > now => ~Due
                                        /\ ~Overdue(loading[p] + Timeout)
                                        /\ now' = loading[p] + Timeout
                                        /\ Ended(p, {})
           \/ \E m \in DOMAIN fetching : /\ fetching[m] + Timeout >= now
                                         /\ fetching[m] + Timeout > now => ~Due
                                         /\ ~Overdue(fetching[m] + Timeout)
                                         /\ now' = fetching[m] + Timeout
                                         /\ FetchEnded(m, FALSE, 0)
\* the one who asked is gone: so is what nobody else waits for
Cancel(i, t) == /\ Time(t)
                /\ LET Wanted(p) == \E j \in DOMAIN q \ {i} : Needs(j) /\ Head(q[j].todo) = p
                       gone == {p \in DOMAIN loading : loading[p] # -1 /\ ~Wanted(p)}
                   IN /\ last' = [p \in DOMAIN last |-> IF p \in gone THEN loading[p] ELSE last[p]]
                      /\ loading' = [p \in DOMAIN last |-> IF p \in gone THEN -1 ELSE loading[p]]
                /\ q' = MoveAll(But(q, i), last', loading', t)
                /\ fetching' = [m \in {m \in DOMAIN fetching : \E j \in DOMAIN q \ {i} : m \in q[j].wait} |-> fetching[m]]
                /\ UNCHANGED <<known, fw, ready>>

(* the answer *)
Rank(m, f) == Specificity(Eff(m, f))
Before(a, b, f) == a.version > b.version \/ (a.version = b.version /\ Rank(a, f) >= Rank(b, f))
Sorted(s, f) == \A k \in 1..(Len(s) - 1) : Before(s[k], s[k + 1], f)
Ambiguous(m, S, f) == \E n \in S : n.version = m.version /\ Rank(n, f) = Rank(m, f) /\ f[n].inner # f[m].inner
Offerable(S, f) == {m \in S : ~Ambiguous(m, S, f)}
Pub(m) == [m EXCEPT !.alg = ""]
\* s lists exactly the images of S
Exactly(s, S) == Len(s) = Cardinality(S) /\ {s[k] : k \in 1..Len(s)} = {Pub(m) : m \in S}
Chosen(s, S) == [k \in 1..Len(s) |-> CHOOSE m \in S : Pub(m) = s[k]]
Answered(i, ups, inners, downs, t) ==
  /\ Time(t)
  /\ i \in DOMAIN q /\ Ready(i) /\ DOMAIN q[i].got \subseteq DOMAIN fw
  /\ LET f == q[i].got @@ fw
         S == Offerable(q[i].ups, f) IN
       /\ Exactly(ups, S)
       /\ Sorted(Chosen(ups, S), f)
       /\ \A k \in 1..Len(ups) : f[Chosen(ups, S)[k]].inner = inners[k]
  /\ Exactly(downs, q[i].downs) /\ Sorted(Chosen(downs, q[i].downs), fw)
  /\ q' = But(q, i)
  /\ ready' = ready \cup {[i |-> i, ups |-> ups]}
  /\ UNCHANGED <<last, loading, known, fw, fetching>>
=============================================================================
