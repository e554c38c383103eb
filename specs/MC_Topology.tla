------------------------------ MODULE MC_Topology ------------------------------
(* Two routers, an end device and the coordinator, tables of two and three rows with invalid ones, *)
(* every outcome of every page, manual scans and the periodic loop.                                *)
EXTENDS Topology
CONSTANTS MaxScans, MaxSwitch, MaxTime, MaxBad
VARIABLES n, sw, ids, bad
mvars == <<tvs, n, sw, ids, bad>>
D(x, nwk, kind) == [n |-> x, nwk |-> nwk, kind |-> kind]
Row(x, nwk) == [n |-> x, nwk |-> nwk]
Rt(dst, hop, st) == [dst |-> dst, hop |-> hop, st |-> st]
TruthNb(x) == IF x = "n1" THEN <<Row("n2", 2), Row("zero", 7)>> ELSE <<Row("n9", 9)>>
TruthRt(x) == IF x = "n1" THEN <<Rt(2, 2, 0), Rt(5, 5, 3)>> ELSE <<>>
Truth(x, tab) == IF tab = "nb" THEN TruthNb(x) ELSE TruthRt(x)
MCInit == /\ Init0([gap |-> 1250, skip |-> TRUE]) /\ n = 0 /\ sw = 0 /\ ids = 0 /\ bad = 0
Setup == <<D("c", 0, "coordinator"), D("n1", 1, "router"), D("n3", 3, "end"), D("n2", 2, "router")>>
Same == UNCHANGED <<n, sw, ids, bad>>
Min2(a, b) == IF a < b THEN a ELSE b
A(kind, entries, list) == [kind |-> kind, entries |-> entries, list |-> list]
Pages == LET whole == Truth(Dev(scan).n, scan.tab) IN
         {A("page", Len(whole), SubSeq(whole, scan.idx + 1, Min2(scan.idx + k, Len(whole)))) : k \in {1, 2}}
Bads == {A("refused", 0, <<>>), A("bare", 0, <<>>), A("bad", 0, <<>>)}
Do == \/ devs = <<>> /\ devs' = Setup /\ UNCHANGED <<now, conf, nb, rt, nonb, nort, scan, loop, ended, n, sw, ids, bad>>
      \/ devs # <<>> /\ n < MaxScans /\ Call(n + 1, FALSE, <<>>, now) /\ n' = n + 1 /\ UNCHANGED <<sw, ids, bad>>
      \/ n > 0 /\ Active /\ ~Periodic /\ CancelCall(n, now) /\ Same
      \/ devs # <<>> /\ sw < MaxSwitch /\ ((~loop.on /\ Start(10000, now)) \/ (loop.on /\ Stop(now))) /\ sw' = sw + 1 /\ UNCHANGED <<n, ids, bad>>
      \/ \E i \in DOMAIN ended : Result(i, ended[i], now) /\ Same
      \/ scan.phase = "ask" /\ Ask(ids + 1, Dev(scan).n, scan.tab, scan.idx, scan.at) /\ ids' = ids + 1 /\ UNCHANGED <<n, sw, bad>>
      \/ scan.phase = "radio" /\ Radio(scan.ask, TRUE, now) /\ Same
      \/ scan.phase = "radio" /\ bad < MaxBad /\ Radio(scan.ask, FALSE, now) /\ bad' = bad + 1 /\ UNCHANGED <<n, sw, ids>>
      \/ scan.phase \in {"radio", "wait"} /\ scan.early.kind = "none" /\ \E a \in Pages : Answer(scan.ask, a, now) /\ Same
      \/ scan.phase = "wait" /\ bad < MaxBad /\ \E a \in Bads : Answer(scan.ask, a, now) /\ bad' = bad + 1 /\ UNCHANGED <<n, sw, ids>>
      \/ scan.phase = "told" /\ Told(scan.tab, Dev(scan).n, IF scan.tab = "nb" THEN nb[Dev(scan).n] ELSE rt[Dev(scan).n], scan.at) /\ Same
      \/ scan.phase = "find" /\ (\E x \in scan.find : Find(ids + 1, x, scan.at)) /\ ids' = ids + 1 /\ UNCHANGED <<n, sw, bad>>
      \/ scan.phase = "findradio" /\ FindRadio(scan.ask, TRUE, now) /\ Same
      \/ scan.phase = "findradio" /\ bad < MaxBad /\ FindRadio(scan.ask, FALSE, now) /\ bad' = bad + 1 /\ UNCHANGED <<n, sw, ids>>
      \/ (Begin \/ StartTable \/ Expire \/ Wake \/ Store \/ Look \/ FindGap \/ Period) /\ Same
MCSpec == MCInit /\ [][Do]_mvars
Bound == now <= MaxTime
\* a stored table is the whole valid table of the device, or nothing if it could not be read
Whole == /\ \A x \in DOMAIN nb : nb[x] = <<>> \/ nb[x] = Valid("nb", TruthNb(x))
         /\ \A x \in DOMAIN rt : rt[x] = <<>> \/ rt[x] = Valid("rt", TruthRt(x))
NeverUnsupported == scan.phase \in {"ask", "radio", "wait"} => Dev(scan).n \notin (IF scan.tab = "nb" THEN nonb ELSE nort)
OnlyRouters == DOMAIN nb \cup DOMAIN rt \subseteq {"n1", "n2"}
ThreeTries == scan.tries < Tries
\* the loop waits either for its period or for its scan, and a scan of a stopped loop does not go on
LoopAlive == loop.on => (loop.at = -1 <=> Active /\ Periodic)
StopStops == ~loop.on => ~(Active /\ Periodic)
\* only really unknown addresses are looked for
FindsUnknown == scan.find \subseteq {9}
\* every manual scan has exactly one end
CallersTold == \A i \in 1..n : (Active /\ scan.id = i) => i \notin DOMAIN ended
=============================================================================
