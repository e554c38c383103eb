------------------------------ MODULE MC_Quirks ------------------------------
(* Four class quirks and three declared ones, three devices.                   *)
EXTENDS Quirks
E1 == [id |-> 1, p |-> 260, ty |-> -1, in |-> <<0>>, out |-> <<>>]
E2 == [E1 EXCEPT !.in = <<0, 6>>]
Class(keys, sig, file) == [two |-> FALSE, keys |-> keys, sm |-> "*", smo |-> "*", has |-> TRUE, sig |-> sig, file |-> file, copy |-> FALSE,
                           rep |-> [m |-> "*", mo |-> "*", node |-> -1, skip |-> -1, eps |-> <<[id |-> 1, p |-> -1, ty |-> -1, in |-> <<[c |-> 0, k |-> 1]>>, out |-> <<>>]>>]]
Decl(keys, filters) == [two |-> TRUE, keys |-> keys, filters |-> filters, file |-> "f", node |-> -1, skip |-> 0, adds |-> <<>>, removes |-> <<>>, replaces |-> <<>>, occ |-> <<>>]
Defs == <<Class(<< <<"A", "X">> >>, <<E1>>, "f"), Class(<< <<"A", "X">>, <<"-", "Y">> >>, <<E1>>, "g"), Class(<< <<"A", "-">> >>, <<E1>>, "f"), Class(<< <<"-", "-">> >>, <<E2>>, "g"),
          Decl(<< <<"A", "X">> >>, <<>>), Decl(<< <<"A", "X">>, <<"B", "Y">> >>, <<[f |-> "node", n |-> 1]>>), Decl(<< <<"B", "Y">> >>, <<[f |-> "endpoint", n |-> 2]>>)>>
Dev(m, mo, node, cs) == [m |-> m, mo |-> mo, node |-> node, skip |-> FALSE, eps |-> {[id |-> 1, p |-> 260, ty |-> 5]},
                         cl |-> {[ep |-> 1, side |-> "in", c |-> c, k |-> 0, con |-> -1] : c \in cs}, cache |-> {<<1, "in", 0, 4, 7>>}]
Devs == {Dev("A", "X", 0, {0}), Dev("A", "X", 1, {0}), Dev("B", "Y", 1, {0}), Dev("A", "Z", 0, {0}), Dev("A", "X", 0, {0, 6}), Dev("C", "Z", 0, {6})}
Q == 1..Len(Defs)
Next == \/ \E q \in Q : IF Defs[q].two THEN Declare(q, Set(Defs[q].keys)) ELSE Register(q)
        \/ \E q \in Q : ~Defs[q].two /\ Withdraw(q, In1(q))
        \/ \E x \in declared : RemoveDeclared(x.q, x.key, TRUE)
        \/ \E f \in {"f", "g"} : Purge({q \in Q : Defs[q].file = f})
Spec == QInit /\ [][Next]_vars
Rank(q, d) == CASE <<d.m, d.mo>> \in Set(Defs[q].keys) -> 1 [] <<d.m, Each>> \in Set(Defs[q].keys) -> 2 [] <<Each, d.mo>> \in Set(Defs[q].keys) -> 3 [] OTHER -> 4
Newer(q, p) == \E j, k \in 1..Len(order) : order[j] = q /\ order[k] = p /\ j < k
\* the chosen one fits, and no other that fits is more specific, or as specific and newer
MostSpecific == \A d \in Devs : LET c == Choice(d, Defs) IN
  /\ c.what = "class" => /\ Signature(Defs[c.q], d)
                         /\ \A q \in Set(order) \ {c.q} : Signature(Defs[q], d) /\ (Set(Defs[q].keys) \cap {<<d.m, d.mo>>, <<d.m, Each>>, <<Each, d.mo>>, <<Each, Each>>}) # {}
                              => Rank(c.q, d) < Rank(q, d) \/ (Rank(c.q, d) = Rank(q, d) /\ Newer(c.q, q))
  /\ c.what = "declared" => \A x \in declared : x.key = <<d.m, d.mo>> /\ Satisfies(Defs[x.q], d) => x.q = c.q
  /\ c.what = "none" => \A q \in Set(order) : <<d.m, d.mo>> \in Set(Defs[q].keys) => ~Signature(Defs[q], d)
NoDuplicates == \A j, k \in 1..Len(order) : order[j] = order[k] => j = k
\* what is not chosen can come and go without consequence, unless it is to be preferred
RemovalIsExact == [][\A q \in Q : (order' = SelectSeq(order, LAMBDA x : x # q) /\ UNCHANGED declared) => \A d \in Devs : Choice(d, Defs).q # q => Choice(d, Defs)' = Choice(d, Defs)]_vars
=============================================================================
