----------------------------- MODULE Gen_Limiter -----------------------------
(* Environment scripts for the limiter, produced from the behaviours of the specification: *)
(* what callers do, with event loop iterations ("tick") in between at which granted        *)
(* acquires return.                                                                        *)
EXTENDS Limiter, TLC, Json
CONSTANT Depth
VARIABLES script, used
gvars == <<lvars, script, used>>
Cmd(c) == Len(script) < Depth /\ script' = Append(script, c)
GInit == \E c \in Caps : LInit(c) /\ script = <<[op |-> "init", a |-> c, b |-> 0]>> /\ used = {}
Fresh == {t \in Tasks \ used : \A u \in Tasks \ used : t <= u}   \* symmetry: in order
GNext == \/ \E t \in Fresh, p \in Prios : Acquire(t, p) /\ Cmd([op |-> "acq", a |-> t, b |-> p])
                                          /\ used' = used \cup {t}
         \/ Grant /\ UNCHANGED <<script, used>>
         \/ \E t \in Tasks : Cancel(t) /\ Cmd([op |-> "cancel", a |-> t, b |-> 0]) /\ UNCHANGED used
         \/ \E t \in Tasks : Release(t) /\ Cmd([op |-> "rel", a |-> t, b |-> 0]) /\ UNCHANGED used
         \/ \E n \in Caps : n # cap /\ Resize(n) /\ Cmd([op |-> "resize", a |-> n, b |-> 0]) /\ UNCHANGED used
         \/ /\ (granted # {} \/ doomed # {})
            /\ holders' = holders \cup granted /\ granted' = {} /\ doomed' = {}
            /\ UNCHANGED <<cap, queue, used>>
            /\ Cmd([op |-> "tick", a |-> 0, b |-> 0])
Dump == IF Len(script) = Depth THEN PrintT(<<"SCRIPT", ToJson(script)>>) /\ FALSE ELSE TRUE
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
