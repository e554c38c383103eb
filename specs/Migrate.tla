------------------------------- MODULE Migrate -------------------------------
(* Opening a database of any schema version (C13).                             *)
(*                                                                             *)
(* A database is a schema version and rows.  What the rows mean depends on the *)
(* version; a migration, one version after the other inside of one transaction,*)
(* must not change the meaning.  Rows without what they belong to mean nothing *)
(* (the schemas before version 5 did not prevent them).                        *)
(*   a row: tab, d (device or ""), k (detail), v, w (values), e (endpoint),    *)
(*   c (cluster), s (milliseconds)                                             *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Newest
VARIABLES orig,     \* the database as it was found: [v, R]
          file,     \* the database file: [v, R]
          work,     \* the transaction: a database, or Idle
          extra     \* attributes that a release before v6 may have left behind in its old table
mvars == <<orig, file, work, extra>>
Idle == [v |-> 0, R |-> {}, on |-> FALSE]

Rows(R, tab) == {r \in R : r.tab = tab}
HasDev(R, d) == \E r \in R : r.tab = "dev" /\ r.d = d
HasEp(R, d, e) == HasDev(R, d) /\ \E r \in R : r.tab = "ep" /\ r.d = d /\ r.e = e
HasCl(R, d, e, c) == HasEp(R, d, e) /\ \E r \in R : r.tab = "cl" /\ r.d = d /\ r.e = e /\ r.c = c
HasGrp(R, g) == \E r \in R : r.tab = "grp" /\ r.k = g

Fact(kind, owner, detail, v, t) == [k |-> <<kind, owner, detail>>, v |-> v, t |-> t]
\* the model and the manufacturer are the values of two attributes
Name(R, d, attr) == LET S == {r \in R : r.tab = "at" /\ r.d = d /\ r.k = attr /\ HasCl(R, d, r.e, r.c)}
                    IN IF S = {} THEN "None" ELSE (CHOOSE r \in S : TRUE).w
Nd(R, d) == LET S == {r \in R : r.tab = "nd" /\ r.d = d} IN IF S = {} THEN "none" ELSE (CHOOSE r \in S : TRUE).v

(* what a row tells, in a database of version v with the rows R *)
Tells(v, R, r) ==
  CASE r.tab = "dev" -> {Fact("dev", r.d, "nwk", r.v, 0), Fact("dev", r.d, "status", r.w, 0), Fact("dev", r.d, "nd", Nd(R, r.d), 0),
                         Fact("dev", r.d, "manuf", Name(R, r.d, "1/in/0/4"), 0), Fact("dev", r.d, "model", Name(R, r.d, "1/in/0/5"), 0)}
                        \cup IF v >= 8 /\ r.s > 0 THEN {Fact("seen", r.d, "", "", r.s)} ELSE {}
    [] r.tab = "nd"  -> {}
    [] r.tab = "ep"  -> IF HasDev(R, r.d) THEN {Fact("ep", r.d, r.e, r.v, 0)} ELSE {}
    [] r.tab = "cl"  -> IF HasEp(R, r.d, r.e) THEN {Fact("cl", r.d, r.c, "", 0)} ELSE {}
    [] r.tab = "at"  -> IF HasCl(R, r.d, r.e, r.c) THEN {Fact("at", r.d, r.k, r.v, IF v >= 12 THEN r.s ELSE 0)} ELSE {}
    [] r.tab = "un"  -> IF v >= 7 /\ HasCl(R, r.d, r.e, r.c) THEN {Fact("un", r.d, r.k, "", 0)} ELSE {}
    [] r.tab = "grp" -> {Fact("grp", r.k, "", r.v, 0)}
    [] r.tab = "mbr" -> IF HasGrp(R, r.v) /\ HasEp(R, r.d, r.e) THEN {Fact("mbr", r.d, r.k, r.v, 0)} ELSE {}
    [] r.tab \in {"rel", "nei"} -> IF HasDev(R, r.d) THEN {Fact(r.tab, r.d, "", r.v, 0)} ELSE {}
    [] r.tab = "rou" -> IF v >= 11 /\ HasDev(R, r.d) THEN {Fact("rou", r.d, "", r.v, 0)} ELSE {}
    [] r.tab = "bak" -> IF v >= 10 THEN {Fact("bak", "", r.k, "", 0)} ELSE {}
Meaning(v, R) == UNION {Tells(v, R, r) : r \in R}

(* --- one version after the other ----------------------------------------------------------------- *)
Stale(R, r) == CASE r.tab \in {"ep", "rel", "nei", "nd"} -> ~HasDev(R, r.d)
                 [] r.tab \in {"cl", "at"} -> ~HasEp(R, r.d, r.e)
                 [] r.tab = "mbr" -> ~(HasGrp(R, r.v) /\ HasEp(R, r.d, r.e))
                 [] OTHER -> FALSE
\* the database of version v as one of version v + 1; X: attributes found in the old table
Up(v, R, X) ==
  LET n == v + 1 IN
  CASE n = 5  -> {r \in R : ~Stale(R, r)}
    [] n = 6  -> IF Cardinality(Rows(R, "at")) < Cardinality(X)
                 THEN R \cup {r \in X : HasDev(R, r.d) /\ ~\E o \in R : o.tab = "at" /\ o.d = r.d /\ o.k = r.k}
                 ELSE R
    [] n = 8  -> {IF r.tab = "dev" THEN [r EXCEPT !.s = 0] ELSE r : r \in R}
    [] n = 12 -> {IF r.tab = "at" THEN [r EXCEPT !.s = 0] ELSE r : r \in R}
    [] OTHER  -> R

Found(v, R, X) == /\ orig = [v |-> v, R |-> R]
                  /\ file = orig
                  /\ work = Idle
                  /\ extra = X
Begin == /\ ~work.on
         /\ file.v < Newest
         /\ work' = [v |-> file.v, R |-> file.R, on |-> TRUE]
         /\ UNCHANGED <<orig, file, extra>>
Step == /\ work.on
        /\ work.v < Newest
        /\ work' = [work EXCEPT !.v = work.v + 1, !.R = Up(work.v, work.R, extra)]
        /\ UNCHANGED <<orig, file, extra>>
Commit == /\ work.on
          /\ work.v = Newest
          /\ file' = [v |-> work.v, R |-> work.R]
          /\ work' = Idle
          /\ UNCHANGED <<orig, extra>>
\* a crash or a failing operation
Abandon == /\ work' = Idle
           /\ UNCHANGED <<orig, file, extra>>

(* --- what is seen ------------------------------------------------------------------------------------ *)
\* a file of version v; same: it is exactly as it was found
Looks(v, same) == \/ v = orig.v /\ same /\ (orig.v < Newest => file = orig)
                  \/ v = Newest /\ orig.v < Newest /\ file.v = Newest
\* attributes that were left behind in an old table may come back, if what they belong to is known
Final == LET RECURSIVE Run(_, _)
             Run(v, R) == IF v >= Newest THEN R ELSE Run(v + 1, Up(v, R, extra))
         IN Run(orig.v, orig.R)
Pairs(F) == {<<f.k, f.v>> : f \in F}
\* times may be off by rounding
Restores(F) == LET E == Meaning(Newest, Final)
               IN /\ Pairs(F) = Pairs(E)
                  /\ \A f \in F : \E g \in E : g.k = f.k /\ g.v = f.v /\ f.t <= g.t + 1 /\ g.t <= f.t + 1

TypeOK == file.v \in {orig.v, Newest}
\* a migration is complete or did not happen
Atomic == file = orig \/ (file.v = Newest /\ file.R = Final)
\* nothing that was known is lost, nothing is made up but what an older release left behind
Lossless == LET M == Pairs(Meaning(orig.v, orig.R)) N == Pairs(Meaning(file.v, file.R))
            IN {p \in M : p[2] # "None"} \subseteq N /\ \A p \in N \ M : p[1][1] = "at" \/ p[1][1] = "dev"
NothingMadeUp == extra = {} => Pairs(Meaning(orig.v, orig.R)) = Pairs(Meaning(file.v, file.R))
=============================================================================
