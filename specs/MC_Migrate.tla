------------------------------ MODULE MC_Migrate ------------------------------
(* Every database of every version over a few rows, with and without what the   *)
(* rows belong to; crashes and failures at every step.                          *)
EXTENDS Migrate
Row(tab, d, e, c, k, v, w, s) == [tab |-> tab, d |-> d, e |-> e, c |-> c, k |-> k, v |-> v, w |-> w, s |-> s]
Dev == Row("dev", "d1", "", "", "", "1000", "2", 5)
Ndr == Row("nd", "d1", "", "", "", "01", "", 0)
Ep == Row("ep", "d1", "1", "", "", "260", "", 0)
Cl == Row("cl", "d1", "1", "1/in/0", "", "", "", 0)
At == Row("at", "d1", "1", "1/in/0", "1/in/0/4", "s:m", "m", 7)
Un == Row("un", "d1", "1", "1/in/0", "1/in/0/9", "", "", 0)
Grp == Row("grp", "", "", "", "5", "name", "", 0)
Mbr == Row("mbr", "d1", "1", "", "5/1", "5", "", 0)
Rel == Row("rel", "d1", "", "", "", "r", "", 0)
Rou == Row("rou", "d1", "", "", "", "x", "", 0)
Bak == Row("bak", "", "", "", "b", "", "", 0)
Old == Row("at", "d1", "1", "1/in/0", "1/in/0/5", "s:o", "o", 0)
Base == {Dev, Ndr, Ep, Cl, At, Grp, Mbr, Rel}
All(v) == Base \cup (IF v >= 7 THEN {Un} ELSE {}) \cup (IF v >= 10 THEN {Bak} ELSE {}) \cup (IF v >= 11 THEN {Rou} ELSE {})
\* the newer schemas do not allow rows without what they belong to
Legal(v, R) == v >= 5 => /\ \A r \in R : ~Stale(R, r)
                         /\ Un \in R => Cl \in R
                         /\ Rou \in R => Dev \in R
Init == \E v \in 0..Newest : \E R \in SUBSET All(v) : \E X \in SUBSET {Old} :
           Legal(v, R) /\ (v # 5 => X = {}) /\ Found(v, R, X)
Next == Begin \/ Step \/ Commit \/ Abandon
Spec == Init /\ [][Next]_mvars
\* once migrated, opening it again changes nothing
Stable == file.v = Newest => ~ENABLED Begin
=============================================================================
