-------------------------------- MODULE Offer --------------------------------
(* Which firmware images fit a device (C22, C23).                             *)
(* An image m: version, manuf, type, minhw, maxhw, mincur, maxcur, spec (-1:  *)
(* not given), names, models (sequences, empty: not given).                   *)
(* A query q: manuf, type, cur, hw (-1: none), name and model of the device.  *)
EXTENDS Integers, Sequences, FiniteSets
In(x, s) == \E i \in 1..Len(s) : s[i] = x
Compatible(m, q) == /\ m.manuf # -1 => m.manuf = q.manuf
                    /\ m.type # -1 => m.type = q.type
                    /\ m.models # <<>> => In(q.model, m.models)
                    /\ m.names # <<>> => In(q.name, m.names)
                    /\ m.minhw # -1 => q.hw # -1 /\ q.hw >= m.minhw
                    /\ m.maxhw # -1 => q.hw # -1 /\ q.hw <= m.maxhw
Newer(m, q) == /\ m.version > q.cur
               /\ m.mincur # -1 => q.cur >= m.mincur
               /\ m.maxcur # -1 => q.cur <= m.maxcur
Fits(m, q) == Compatible(m, q) /\ Newer(m, q)
If(c, n) == IF c THEN n ELSE 0
Specificity(m) == If(m.names # <<>>, 1000) + If(m.models # <<>>, 1000) + If(m.type # -1, 100) + If(m.manuf # -1, 100)
                  + If(m.mincur # -1, 10) + If(m.maxcur # -1, 10) + If(m.minhw # -1, 1) + If(m.maxhw # -1, 1)
                  + If(m.spec # -1, m.spec)
=============================================================================
