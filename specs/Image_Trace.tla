------------------------------ MODULE Image_Trace ------------------------------
EXTENDS Image, TraceKit, SequencesExt
trvars == <<tid, l>>
TInit == tid \in 1..NTraces /\ l = 1
Crcs(o) == [k \in 1..Len(o.crcs) |-> ToSet(o.crcs[k])]
Agrees(o, p) == IF ~p.ok THEN o.res = "ValueError"
                ELSE /\ o.res = "ok" /\ o.kind = p.kind /\ o.hdr = p.hdr /\ o.els = p.els /\ o.data = p.data /\ o.rest = p.rest
                     /\ o.written = Write(p)
                     /\ o.valid = Validity(p, Crcs(o))
TNext == \/ IsEvent("parse") /\ Agrees(Ev.out, Parse(Ev.data, [sha |-> Ev.sha]))
         \/ IsEvent("build") /\ LET i == [kind |-> Ev.kind, hdr |-> Ev.hdr, els |-> Ev.els, data |-> Ev.data]
                                IN IF Writable(i) THEN Ev.res = "ok" /\ Ev.out = Write(i) ELSE Ev.res = "ValueError"
TSpec == TInit /\ [][TNext]_trvars
=============================================================================
