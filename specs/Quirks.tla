-------------------------------- MODULE Quirks --------------------------------
(* Device handlers ("quirks"): which one a device gets, and what the device is *)
(* afterwards (C27).                                                           *)
(*                                                                             *)
(* A device:  m, mo: manufacturer and model;  node: its node descriptor;  skip *)
(*   eps: its endpoints [id, p, ty]                                            *)
(*   cl: its clusters [ep, side, c, k, con]: on side "in" or "out" of an       *)
(*       endpoint, of class k (0: standard) with a constant con (-1: none)     *)
(*   cache: attribute values <<ep, side, c, attribute, value>>                 *)
(* A class quirk:  keys: the <<manufacturer, model>> it is for ("-": any);     *)
(*   sm, smo: demanded as well ("*": not);  has, sig: endpoints it is for;     *)
(*   copy: whether values are kept;  rep: what replaces the device             *)
(* A declared quirk:  keys;  filters: conditions;  node, skip;  adds, removes, *)
(*   replaces, occ: changes to the clusters, in this order                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
VARIABLES order,      \* the registered class quirks, newest first
          declared    \* {[q, key]}: declared quirks registered, by key
vars == <<order, declared>>
Each == "-"
Set(s) == {s[k] : k \in 1..Len(s)}

(* whether the endpoints are exactly the ones of a signature *)
SameEndpoints(sig, d) ==
  /\ {s.id : s \in Set(sig)} = {e.id : e \in d.eps}
  /\ \A s \in Set(sig) : \E e \in d.eps :
       /\ e.id = s.id
       /\ s.p \in {-1, e.p} /\ s.ty \in {-1, e.ty}
       /\ Set(s.in) = {x.c : x \in {y \in d.cl : y.ep = s.id /\ y.side = "in"}}
       /\ Set(s.out) = {x.c : x \in {y \in d.cl : y.ep = s.id /\ y.side = "out"}}
Signature(x, d) == x.smo \in {"*", d.mo} /\ x.sm \in {"*", d.m} /\ x.has /\ SameEndpoints(x.sig, d)
Passes(f, d) == CASE f.f = "endpoint" -> \E e \in d.eps : e.id = f.n
                  [] f.f = "node" -> d.node = f.n
                  [] f.f = "signature" -> SameEndpoints(f.sig, d)
                  [] f.f = "never" -> FALSE
Satisfies(x, d) == \A f \in Set(x.filters) : Passes(f, d)

-----------------------------------------------------------------------------
(* registering *)
QInit == order = <<>> /\ declared = {}
In1(q) == q \in Set(order)
Register(q) == order' = (IF In1(q) THEN order ELSE <<q>> \o order) /\ UNCHANGED declared
Declare(q, keys) == declared' = declared \cup {[q |-> q, key |-> k] : k \in keys} /\ UNCHANGED order
Known(q) == In1(q) \/ \E x \in declared : x.q = q
\* one class quirk; what is not registered cannot be removed
Withdraw(q, ok) == ok = In1(q) /\ order' = SelectSeq(order, LAMBDA x : x # q) /\ UNCHANGED declared
\* the declared quirk of a device: with it, or without it, those of the same quirk for other models
RemoveDeclared(q, key, ok) == /\ ok = ([q |-> q, key |-> key] \in declared)
                              /\ \/ declared' = {x \in declared : x.q # q \/ x.key # key}
                                 \/ declared' = {x \in declared : x.q # q}
                              /\ UNCHANGED order
Purge(gone) == order' = SelectSeq(order, LAMBDA x : x \notin gone) /\ declared' = {x \in declared : x.q \notin gone}

-----------------------------------------------------------------------------
(* choosing *)
Keyed(key, defs) == SelectSeq(order, LAMBDA q : key \in Set(defs[q].keys))
Candidates(d, defs) == Keyed(<<d.m, d.mo>>, defs) \o Keyed(<<d.m, Each>>, defs) \o Keyed(<<Each, d.mo>>, defs) \o Keyed(<<Each, Each>>, defs)
Choice(d, defs) ==
  LET two == {x.q : x \in {y \in declared : y.key = <<d.m, d.mo>> /\ Satisfies(defs[y.q], d)}}
      one == SelectSeq(Candidates(d, defs), LAMBDA q : Signature(defs[q], d))
  IN IF Cardinality(two) > 1 THEN [what |-> "ambiguous", q |-> 0]
     ELSE IF two # {} THEN [what |-> "declared", q |-> CHOOSE q \in two : TRUE]
     ELSE IF one # <<>> THEN [what |-> "class", q |-> one[1]]
     ELSE [what |-> "none", q |-> 0]

(* what the device is with the quirk *)
At(d, ep) == CHOOSE e \in d.eps : e.id = ep
ByClass(x, d) ==
  LET r == x.rep IN
  [m |-> IF r.m = "*" THEN d.m ELSE r.m, mo |-> IF r.mo = "*" THEN d.mo ELSE r.mo,
   node |-> IF r.node = -1 THEN d.node ELSE r.node, skip |-> IF r.skip = -1 THEN d.skip ELSE r.skip = 1,
   eps |-> {[id |-> e.id, p |-> IF e.p = -1 THEN At(d, e.id).p ELSE e.p, ty |-> IF e.ty = -1 THEN At(d, e.id).ty ELSE e.ty] : e \in Set(r.eps)},
   cl |-> UNION {{[ep |-> e.id, side |-> "in", c |-> y.c, k |-> y.k, con |-> -1] : y \in Set(e.in)} \cup
                 {[ep |-> e.id, side |-> "out", c |-> y.c, k |-> y.k, con |-> -1] : y \in Set(e.out)} : e \in Set(r.eps)},
   kept |-> IF ~x.copy THEN {} ELSE {v \in d.cache : \E e \in Set(r.eps) : e.id = v[1] /\ \E y \in Set(IF v[2] = "in" THEN e.in ELSE e.out) : y.c = v[3]}]
\* changes to the clusters; st: [cl, kept]
Without(st, ep, side, c) == [cl |-> {x \in st.cl : <<x.ep, x.side, x.c>> # <<ep, side, c>>}, kept |-> {v \in st.kept : <<v[1], v[2], v[3]>> # <<ep, side, c>>}]
With(st, ep, side, c, k, con) == LET s == Without(st, ep, side, c) IN [s EXCEPT !.cl = @ \cup {[ep |-> ep, side |-> side, c |-> c, k |-> k, con |-> con]}]
Has(st, ep, side, c) == \E x \in st.cl : <<x.ep, x.side, x.c>> = <<ep, side, c>>
Add(st, a) == IF a.k = 0 /\ Has(st, a.ep, a.side, a.c) THEN st ELSE With(st, a.ep, a.side, a.c, a.k, a.con)
Replace(st, a) == With(Without(st, a.ep, a.side, a.old), a.ep, a.side, a.c, a.k, -1)
Everywhere(st, a) ==
  LET hit == {x \in st.cl : x.c = a.c /\ ((x.side = "in" /\ a.in) \/ (x.side = "out" /\ a.out))} IN
  [cl |-> (st.cl \ hit) \cup {[x EXCEPT !.k = a.k, !.con = -1] : x \in hit},
   kept |-> {v \in st.kept : ~\E x \in hit : <<x.ep, x.side, x.c>> = <<v[1], v[2], v[3]>>}]
Declaring(x, d) ==
  LET s0 == [cl |-> {[y EXCEPT !.k = 0, !.con = -1] : y \in d.cl}, kept |-> d.cache]
      s1 == FoldLeft(LAMBDA s, a : Add(s, a), s0, x.adds)
      s2 == FoldLeft(LAMBDA s, a : Without(s, a.ep, a.side, a.c), s1, x.removes)
      s3 == FoldLeft(LAMBDA s, a : Replace(s, a), s2, x.replaces)
      s4 == FoldLeft(LAMBDA s, a : Everywhere(s, a), s3, x.occ)
  IN [m |-> d.m, mo |-> d.mo, node |-> IF x.node = -1 THEN d.node ELSE x.node, skip |-> x.skip = 1, eps |-> d.eps, cl |-> s4.cl, kept |-> s4.kept]
\* got: what the device has become.  values of replaced clusters may be kept or not, but not others be invented
Became(w, d, got) == /\ got.m = w.m /\ got.mo = w.mo /\ got.node = w.node /\ got.skip = w.skip
                     /\ got.eps = w.eps /\ got.cl = w.cl
                     /\ w.kept \subseteq got.cache /\ got.cache \subseteq d.cache
Get(d, defs, what, q, same, got) ==
  LET c == Choice(d, defs) IN
  /\ what = c.what /\ q = c.q
  /\ what \in {"none", "ambiguous"} => same       \* left alone
  /\ what = "class" => Became(ByClass(defs[q], d), d, got)
  /\ what = "declared" => Became(Declaring(defs[q], d), d, got)
  /\ UNCHANGED vars
=============================================================================
