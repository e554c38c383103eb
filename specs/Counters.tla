------------------------------- MODULE Counters -------------------------------
(* Event counters (zigpy.state.Counter / CounterGroup / CounterGroups).  A counter is named   *)
(* by its path: group, tags, name.  A counter shows the total over all resets.               *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS Paths, MaxV

VARIABLES cnt    \* path -> [total, cur, resets]: everything reported, what came since the last reset
cvars == <<cnt>>

New == [total |-> 0, cur |-> 0, resets |-> 0]
Get(c, p) == IF p \in DOMAIN c THEN c[p] ELSE New
Set(c, p, v) == [q \in DOMAIN c \cup {p} |-> IF q = p THEN v ELSE c[q]]
CInit == cnt = << >>

Touch(p) == cnt' = Set(cnt, p, Get(cnt, p))
Plus(x, n) == [x EXCEPT !.total = @ + n, !.cur = @ + n]
Rst(x, v) == [total |-> x.total + v, cur |-> v, resets |-> x.resets + 1]

Increment(p, n) == cnt' = Set(cnt, p, Plus(Get(cnt, p), n))
\* the source reports its own running count: it grew by the difference, or it has restarted
Update(p, v) == LET x == Get(cnt, p)
                IN cnt' = Set(cnt, p, IF v >= x.cur THEN Plus(x, v - x.cur) ELSE Rst(x, v))
ResetTo(p, v) == cnt' = Set(cnt, p, Rst(Get(cnt, p), v))
\* all counters below a group
IsBelow(g, q) == Len(q) > Len(g) /\ SubSeq(q, 1, Len(g)) = g
ResetGroup(g) == cnt' = [q \in DOMAIN cnt |-> IF IsBelow(g, q) THEN Rst(cnt[q], 0) ELSE cnt[q]]
\* one event counted at every level of its tags
IncTags(g, name, tags) ==
    LET ps == {Append(g \o SubSeq(tags, 1, k), name) : k \in 1..Len(tags)}
    IN cnt' = [q \in DOMAIN cnt \cup ps |-> IF q \in ps THEN Plus(Get(cnt, q), 1) ELSE cnt[q]]

Seen(dump) == /\ {dump[i].p : i \in 1..Len(dump)} = DOMAIN cnt
              /\ \A i \in 1..Len(dump) : /\ dump[i].v = cnt[dump[i].p].total
                                         /\ dump[i].n = cnt[dump[i].p].resets

Monotone == [][\A p \in DOMAIN cnt : p \in DOMAIN cnt' /\ cnt'[p].total >= cnt[p].total /\ cnt'[p].resets >= cnt[p].resets]_cvars
Consistent == \A p \in DOMAIN cnt : cnt[p].total >= cnt[p].cur /\ (cnt[p].resets = 0 => cnt[p].total = cnt[p].cur)

CNext == \E p \in Paths, v \in 0..MaxV : Increment(p, v) \/ Update(p, v) \/ ResetTo(p, v) \/ ResetGroup(Front(p))
=============================================================================
