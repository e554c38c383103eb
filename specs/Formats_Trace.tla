---------------------------- MODULE Formats_Trace ----------------------------
EXTENDS Formats, TraceKit
trvars == <<tid, l>>
B(x) == [x EXCEPT !.mask = S(@), !.keys = S(@), !.children = S(@), !.nwks = S(@)]
TInit == tid \in 1..NTraces /\ l = 1
TNext == \/ IsEvent("export") /\ Exported(B(Ev.b), Ev.tree, Ev.seqs, Ev.extra)
         \/ IsEvent("back") /\ Carried(B(Ev.got)) = Carried(B(Ev.b))     \* exported and imported again
         \/ IsEvent("import") /\ Carried(B(Ev.got)) = Imported(Ev.j)
         \/ IsEvent("write") /\ Written(B(Ev.b), Ev.tree, Ev.nwks)
         \/ IsEvent("read") /\ B(Ev.got) = B(Ev.b)                       \* written and read again
         \/ IsEvent("refused") /\ Ev.ok = FALSE
TSpec == TInit /\ [][TNext]_trvars
=============================================================================
