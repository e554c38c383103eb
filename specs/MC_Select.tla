------------------------------ MODULE MC_Select ------------------------------
(* Two providers, one of them for one manufacturer only; two queries.          *)
EXTENDS Select
CONSTANTS MaxTime, Inners, Hws, QHws
VARIABLE asked
mvars == <<svars, asked>>
E(v, mf, url, hw) == [version |-> v, manuf |-> mf, type |-> 7, size |-> 1, sum |-> 1, names |-> <<>>, models |-> <<>>, minhw |-> hw, maxhw |-> -1,
                      mincur |-> -1, maxcur |-> -1, spec |-> -1, url |-> url, old |-> FALSE, odd |-> FALSE]
Provs == <<[p |-> "a", kind |-> "zigpy", manufs |-> <<>>], [p |-> "b", kind |-> "zigpy", manufs |-> <<1>>]>>
Index(p) == IF p = "a" THEN <<E(2, 1, "a1", -1), E(0, 1, "a2", -1)>> ELSE <<E(2, 1, "b1", -1), E(3, 1, "b2", 5)>>
Files == [{"a1", "b1", "b2"} -> {[got |-> TRUE, parses |-> TRUE, intact |-> TRUE, size |-> 1, sum |-> 1, inner |-> 1, manuf |-> 1, type |-> 7, minhw |-> -1, maxhw |-> -1]}]
D(good, n, hw) == [got |-> TRUE, parses |-> TRUE, intact |-> TRUE, size |-> 1, sum |-> IF good THEN 1 ELSE 2, inner |-> n, manuf |-> 1, type |-> 7, minhw |-> hw, maxhw |-> -1]
Queries == {[manuf |-> 1, type |-> 7, cur |-> 1, hw |-> h - 1, name |-> "n", model |-> "m"] : h \in QHws}
Init == Init0({"a", "b"}) /\ asked = 0
Next == \E t \in now..(now + 1) :
        /\ t <= MaxTime
        /\ \/ asked < 2 /\ asked' = asked + 1 /\ \E x \in Queries, id \in {1, 2} : Query(asked, x, id, Provs, t)
           \/ /\ UNCHANGED asked
              /\ \/ \E p \in {"a", "b"} : Load(p, t) \/ \E ok \in BOOLEAN : Loaded(p, "zigpy", ok, Index(p), t)
                 \/ \E m \in known : Fetch(m.url, t) \/ \E good \in BOOLEAN, n \in Inners, hw \in {h - 1 : h \in Hws} : Fetched(m.url, D(good, n, hw), t)
                 \/ t = now /\ TooSlow
                 \/ \E i \in DOMAIN q : Cancel(i, t) \/ (t = now /\ (Choose(i) \/ Keep(i)))
                 \/ \E i \in DOMAIN q : Ready(i) /\ LET f == q[i].got @@ fw
                                                        S == Offerable(q[i].ups, f)
                                                        U == CHOOSE s \in [1..Cardinality(S) -> S] : {s[k] : k \in 1..Cardinality(S)} = S /\ Sorted(s, f)
                                                        Dn == CHOOSE s \in [1..Cardinality(q[i].downs) -> q[i].downs] : {s[k] : k \in 1..Cardinality(q[i].downs)} = q[i].downs /\ Sorted(s, fw)
                                                    IN Answered(i, [k \in DOMAIN U |-> Pub(U[k])], [k \in DOMAIN U |-> f[U[k]].inner], [k \in DOMAIN Dn |-> Pub(Dn[k])], t)
Spec == Init /\ [][Next]_mvars
\* whoever asked is answered or something is under way for it
Progress == \A i \in DOMAIN q : \/ Ready(i)
                                \/ ~q[i].sel
                                \/ q[i].sel /\ q[i].wait # {} /\ q[i].wait \subseteq known
\* what is offered is newer, and its file is the one announced
Sound == \A r \in ready : \A k \in 1..Len(r.ups) :
            /\ r.ups[k].version > 1
            /\ \E m \in DOMAIN fw : Pub(m) = r.ups[k] /\ fw[m].sum = m.sum
\* no two offers that differ in contents only
Unambiguous == \A r \in ready : \A j, k \in 1..Len(r.ups) : j < k => r.ups[j].version >= r.ups[k].version
\* files of images not newer are not downloaded
Needed == \A m \in DOMAIN fw \cup DOMAIN fetching : m.version > 1
Once == \A p \in DOMAIN last : loading[p] # -1 => last[p] = -1 \/ loading[p] - last[p] >= Day
=============================================================================
