------------------------------ MODULE TraceKit ------------------------------
(* Common machinery for judging batches of recorded traces.                  *)
(* Traces is a sequence of traces; a trace is a sequence of event records.   *)
(* One TLC run explores, for every trace, the behaviours of the area's       *)
(* specification that produce its events in order.  Register t holds the     *)
(* largest number of events of trace t that some behaviour matched.          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLES tid, l

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
NTraces == Len(Traces)

TraceKitInit == tid \in 1..NTraces /\ l = 1
Trace == Traces[tid]
Ev == Traces[tid][l]
More == l <= Len(Traces[tid])
IsEvent(name) == More /\ Traces[tid][l].ev = name /\ l' = l + 1 /\ tid' = tid
Silent == l' = l /\ tid' = tid

ASSUME \A t \in 1..NTraces : TLCSet(t, 0)

(* CONSTRAINT of every trace configuration (needs -workers 1) *)
Track == (IF TLCGet(tid) < l - 1 THEN TLCSet(tid, l - 1) ELSE TRUE)

(* POSTCONDITION *)
Judge == /\ \A t \in 1..NTraces : PrintT(<<"VERDICT", t, TLCGet(t), Len(Traces[t])>>)
         /\ PrintT(<<"JUDGED", NTraces>>)
=============================================================================
