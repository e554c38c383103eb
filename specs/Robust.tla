-------------------------------- MODULE Robust --------------------------------
(* Reception of arbitrary bytes: every reception returns, and a well-formed packet afterwards *)
(* still reaches its handler exactly once.  `owed` is the probe the handler has to report.    *)
EXTENDS Naturals
CONSTANT MaxProbe
VARIABLES phase, owed, seen
rvars == <<phase, owed, seen>>
RInit == phase = "idle" /\ owed = 0 /\ seen = 0
Recv == phase = "idle" /\ phase' = "busy" /\ UNCHANGED <<owed, seen>>
Returned == phase = "busy" /\ owed = 0 /\ phase' = "idle" /\ UNCHANGED <<owed, seen>>
Probe(n) == phase = "idle" /\ n > seen /\ phase' = "busy" /\ owed' = n /\ seen' = n
Handled(n) == phase = "busy" /\ owed = n /\ n # 0 /\ owed' = 0 /\ UNCHANGED <<phase, seen>>
Steady == phase = "idle" => owed = 0
RNext == Recv \/ Returned \/ \E n \in 1..MaxProbe : Probe(n) \/ Handled(n)
=============================================================================
