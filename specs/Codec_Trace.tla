----------------------------- MODULE Codec_Trace -----------------------------
EXTENDS Codec, TraceKit
trvars == <<tid, l>>
\* kind, id: which type;  d: its description
Which(kind, id, d) == CASE kind = "zcl" -> Zcl(id)
                        [] kind = "cmd" -> Cmd(id)
                        [] kind = "zdo" -> Zdo(id)
                        [] kind = "header" -> Header
                        [] kind = "control" -> FrameControl
                        [] kind = "typed" -> Typed
                        [] kind = "is" -> d
Known(kind, id) == CASE kind = "zcl" -> id \in ZclIds [] kind = "cmd" -> id \in CmdIds [] kind = "zdo" -> id \in ZdoIds [] OTHER -> TRUE
TInit == tid \in 1..NTraces /\ l = 1
TNext == \/ IsEvent("types") /\ {Ev.zcl[k] : k \in 1..Len(Ev.zcl)} = ZclIds /\ {Ev.zdo[k] : k \in 1..Len(Ev.zdo)} = ZdoIds /\ {Ev.cmd[k] : k \in 1..Len(Ev.cmd)} = CmdIds
         \/ IsEvent("decoded") /\ Decoded(Which(Ev.kind, Ev.id, Ev.d), Ev.b, Ev.ok, Ev.v, Ev.rest, Ev.again)
         \/ IsEvent("encoded") /\ Encoded(Which(Ev.kind, Ev.id, Ev.d), Ev.v, Ev.b)
         \/ IsEvent("number") /\ Ev.ok = InRange(Ev.bits, Ev.sg, Ev.neg, Ev.mag)
         \/ IsEvent("length") /\ Ev.ok = Tells(Ev.p, Ev.n, Ev.special)
         \/ IsEvent("refused") /\ ~Ev.ok
TSpec == TInit /\ [][TNext]_trvars
=============================================================================
