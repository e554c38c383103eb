----------------------------- MODULE Quirks_Trace -----------------------------
(* the first event defines the quirks: they have the numbers 1, 2, ... *)
EXTENDS Quirks, TraceKit
trvars == <<order, declared, tid, l>>
Defs == Traces[tid][1].defs
Keys(q) == Set(Defs[q].keys)
Dev(x) == [x EXCEPT !.eps = Set(@), !.cl = Set(@), !.cache = Set(@)]
TInit == tid \in 1..NTraces /\ l = 2 /\ QInit
TNext ==
  \/ IsEvent("register") /\ (IF Defs[Ev.q].two THEN Declare(Ev.q, Keys(Ev.q)) ELSE Register(Ev.q))
  \/ IsEvent("remove") /\ Withdraw(Ev.q, Ev.ok)
  \/ IsEvent("remove of") /\ RemoveDeclared(Ev.q, Ev.key, Ev.ok)
  \/ IsEvent("known") /\ Ev.ok = In1(Ev.q) /\ UNCHANGED vars
  \/ IsEvent("known of") /\ Ev.ok = ([q |-> Ev.q, key |-> Ev.key] \in declared) /\ UNCHANGED vars
  \/ IsEvent("purge") /\ Purge({q \in 1..Len(Defs) : Defs[q].file = Ev.file})
  \/ IsEvent("get") /\ Get(Dev(Ev.d), Defs, Ev.what, Ev.q, Ev.same, Dev(Ev.got))
  \/ IsEvent("again") /\ Ev.same /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_trvars
=============================================================================
