------------------------------ MODULE MC_Store ------------------------------
(* A small instance: few devices, one group, values 0/1, crashes, failures.    *)
EXTENDS Store, TLC
CONSTANTS Devs, MaxOps
VARIABLES ops,      \* how many changes happened
          clean     \* nothing failed to be stored since the process started
mcvars == <<stvs, ops, clean>>

Dk(d) == <<"dev", d, "nwk">>
Ek(d) == <<"ep", d, "1">>
Ak(d) == <<"at", d, "a">>
Rk(d) == <<"rou", d, "">>
Sk(d) == <<"seen", d, "">>
Gk == <<"grp", "g", "">>
Mk(d) == <<"mbr", d, "g">>
F(k, v, t) == [k |-> k, v |-> v, t |-> t]
Has(k) == k \in DOMAIN mem
\* the last interviewed value of the address, and the clock, are the number of changes so far
New(d) == Interviewed(d, {F(Dk(d), ToString(ops), 0), F(Ek(d), "", 0), F(Sk(d), "", ops)}
                         \cup IF Has(Ak(d)) THEN {F(Ak(d), mem[Ak(d)].v, mem[Ak(d)].t)} ELSE {})
Change == \/ \E d \in Devs : New(d)
          \/ \E d \in Devs, v \in {"0", "1"} : Has(Dk(d)) /\ Put(Ak(d), v, ops, {Dk(d)})
          \/ \E d \in Devs : Has(Dk(d)) /\ Put(Rk(d), ToString(ops), 0, {})
          \/ \E d \in Devs : Has(Dk(d)) /\ Put(Sk(d), "", ops, {Dk(d)})
          \/ \E d \in Devs : Has(Ak(d)) /\ Del(Ak(d))
          \/ \E d \in Devs : Has(Dk(d)) /\ (\A i \in 1..Len(q) : ~(q[i].k = "save" /\ q[i].d = d)) /\ Remove(d)
          \/ ~Has(Gk) /\ Put(Gk, "", 0, {})
          \/ \E d \in Devs : Has(Gk) /\ Has(Ek(d)) /\ Put(Mk(d), "g", 0, {Gk, Ek(d)})
          \/ \E d \in Devs : Has(Mk(d)) /\ Del(Mk(d))
          \/ Has(Gk) /\ DeleteGroup("g")
\* what the database is loaded as, when no stored time is older than the last one
Content == {F(k, disk[k].v, disk[k].t) : k \in Visible(disk)}
Stop == Crash(Content)
Init == Init0 /\ ops = 0 /\ clean = TRUE
Next == \/ ops < MaxOps /\ Change /\ ops' = ops + 1 /\ UNCHANGED clean
        \/ Persist /\ UNCHANGED <<ops, clean>>
        \/ Failed /\ clean' = FALSE /\ UNCHANGED ops
        \/ Stop /\ clean' = TRUE /\ UNCHANGED ops
        \/ Restart(Content) /\ clean' = TRUE /\ UNCHANGED ops
Spec == Init /\ [][Next]_mcvars

RECURSIVE Ahead(_, _)
Ahead(D, w) == IF w = <<>> THEN D ELSE Ahead(Effect(Head(w), D), Tail(w))
Same(m, n) == Restrict(m, Visible(m)) = Restrict(n, Visible(n))

TypeOK == /\ \A k \in DOMAIN mem \cup DOMAIN disk : Len(k) = 3
          /\ \A i \in 1..Len(q) : q[i].k \in {"save", "put", "del", "gdel", "rem", "void"}
\* what is queued leads from what is stored to what is known: nothing is lost, nothing resurrects
Catchup == clean => Same(Ahead(disk, q), mem)
\* once everything is stored, a restart restores what was known
Restored == clean /\ q = <<>> => Same(disk, mem)
\* members belong to stored groups and endpoints, attributes to stored devices
Consistent == \A k \in DOMAIN disk : /\ k[1] = "mbr" => Gk \in DOMAIN disk /\ Ek(k[2]) \in DOMAIN disk
                                     /\ k[1] \in {"at", "seen", "ep"} => Dk(k[2]) \in DOMAIN disk
=============================================================================
