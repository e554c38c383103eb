-------------------------------- MODULE Store --------------------------------
(* What the application knows and what its database holds (C11, C12).          *)
(*                                                                             *)
(* Knowledge is a set of facts: a key <<kind, owner, detail>> has a value and, *)
(* for attribute values and last-seen times, a time in milliseconds.           *)
(*   dev  <device>  nwk/status/nd/model/manuf     seen <device>                *)
(*   ep   <device>  endpoint      cl <device> cluster                          *)
(*   at   <device>  attribute     un <device> unsupported attribute            *)
(*   mbr  <device>  group/endpoint (value: the group)    grp <group> name      *)
(*   rel/nei/rou <device>  relays, neighbor and routing table                  *)
(*   bak  - <backup>                                                           *)
(* Every change is queued and stored in order by a single writer, each one     *)
(* completely or not at all.  A crash forgets the knowledge and the queue, a   *)
(* restart takes the knowledge from the database.                              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Slack      \* how old a stored time may get: 30 seconds
VARIABLES mem,      \* what the application knows: key -> [v, t]
          disk,     \* what is stored:            key -> [v, t]
          q         \* changes that are not stored yet, oldest first
stvs == <<mem, disk, q>>

Timed == {"at", "seen"}
Own == {"dev", "ep", "cl", "at", "un", "seen"}    \* stored together when an interview is complete

Restrict(m, K) == [k \in K |-> m[k]]
Merge(m, n) == [k \in DOMAIN m \cup DOMAIN n |-> IF k \in DOMAIN n THEN n[k] ELSE m[k]]
One(k, v, t) == [x \in {k} |-> [v |-> v, t |-> t]]
AsMap(F) == [k \in {f.k : f \in F} |-> LET f == CHOOSE f \in F : f.k = k IN [v |-> f.v, t |-> f.t]]
Known(m, d) == <<"dev", d, "nwk">> \in DOMAIN m

\* tables of devices that are not known mean nothing
Visible(m) == {k \in DOMAIN m : k[1] \in {"rou", "nei"} => Known(m, k[2])}

DropDevice(m, d) == Restrict(m, {k \in DOMAIN m : k[2] # d})
DropGroup(m, g) == Restrict(m, {k \in DOMAIN m : ~(k[1] = "grp" /\ k[2] = g) /\ ~(k[1] = "mbr" /\ m[k].v = g)})

(* the effect of one queued change on the database; a change to something that is not stored is void *)
Effect(e, D) ==
  CASE e.k = "save" -> Merge(D, e.f)
    [] e.k = "put"  -> IF \A n \in e.need : n \in DOMAIN D THEN Merge(D, One(e.key, e.v, e.t)) ELSE D
    [] e.k = "del"  -> Restrict(D, DOMAIN D \ {e.key})
    [] e.k = "gdel" -> DropGroup(D, e.g)
    [] e.k = "rem"  -> DropDevice(D, e.d)
    [] e.k = "void" -> D

Init0 == /\ mem = <<>>
         /\ disk = <<>>
         /\ q = <<>>

(* --- changes of the knowledge ------------------------------------------------------------- *)
\* an interview is complete: F is everything known about the device
Interviewed(d, F) == /\ \A f \in F : f.k[2] = d /\ f.k[1] \in Own
                     /\ mem' = Merge(Restrict(mem, {k \in DOMAIN mem : ~(k[2] = d /\ k[1] \in Own)}), AsMap(F))
                     /\ q' = Append(q, [k |-> "save", d |-> d, f |-> AsMap(F)])
                     /\ UNCHANGED disk
Put(key, v, t, need) == /\ mem' = Merge(mem, One(key, v, t))
                        /\ q' = Append(q, [k |-> "put", key |-> key, v |-> v, t |-> t, need |-> need])
                        /\ UNCHANGED disk
Del(key) == /\ mem' = Restrict(mem, DOMAIN mem \ {key})
            /\ q' = Append(q, [k |-> "del", key |-> key])
            /\ UNCHANGED disk
DeleteGroup(g) == /\ mem' = DropGroup(mem, g)
                  /\ q' = Append(q, [k |-> "gdel", g |-> g])
                  /\ UNCHANGED disk
Remove(d) == /\ mem' = DropDevice(mem, d)
             /\ q' = Append(q, [k |-> "rem", d |-> d])
             /\ UNCHANGED disk
\* a change that means nothing to what is known by now (a join of a device without an interview)
Void == /\ q' = Append(q, [k |-> "void"])
        /\ UNCHANGED <<mem, disk>>

(* --- the writer ---------------------------------------------------------------------------- *)
\* what is stored about an interviewed device is what was known then, or what is known by now
Live(e, kinds) == IF e.k # "save" THEN e
                  ELSE [e EXCEPT !.f = Merge(Restrict(e.f, {k \in DOMAIN e.f : k[1] \notin kinds}),
                                             Restrict(mem, {k \in DOMAIN mem : k[2] = e.d /\ k[1] \in kinds}))]
Persist == /\ q # <<>>
           /\ \E kinds \in {{}, {"dev", "seen"}, Own} : disk' = Effect(Live(Head(q), kinds), disk)
           /\ q' = Tail(q)
           /\ UNCHANGED mem
\* storing fails: no effect, and the writer goes on
Failed == /\ q # <<>>
          /\ q' = Tail(q)
          /\ UNCHANGED <<mem, disk>>

(* --- what is seen --------------------------------------------------------------------------- *)
\* a database with content D is loaded as the facts F
Loads(D, F) == /\ {<<f.k, f.v>> : f \in F} = {<<k, D[k].v>> : k \in Visible(D)}
               /\ \A f \in F : f.k[1] \in Timed => f.t <= D[f.k].t + 1 /\ f.t + Slack + 1 >= D[f.k].t
Looks(F) == {<<f.k, f.v>> : f \in F} = {<<k, mem[k].v>> : k \in Visible(mem)}
Drained == q = <<>>

\* what a process that starts knows
Started(F) == Merge(Restrict(disk, DOMAIN disk \ Visible(disk)), AsMap(F))
\* an orderly restart: everything queued was stored
Restart(F) == /\ q = <<>>
              /\ Loads(disk, F)
              /\ mem' = Started(F)
              /\ disk' = Started(F)
              /\ q' = <<>>
Crash(F) == /\ Loads(disk, F)
            /\ mem' = Started(F)
            /\ disk' = Started(F)
            /\ q' = <<>>
=============================================================================
