----------------------------- MODULE MC_Formats -----------------------------
(* What the open format exports, imported again, is the backup, for every     *)
(* combination of devices being children, having an address, having a key.    *)
EXTENDS Formats, TLC
VARIABLES b, done
vars == <<b, done>>
P1 == <<1, 2, 3, 4, 5, 6, 7, 8>>
P2 == <<255, 160, 11, 0, 0, 9, 255, 16>>
Key16(x) == [k \in 1..16 |-> (x * k) % 256]
KeyFor(p, x) == [key |-> Key16(x), tx |-> "#5", rx |-> "#0", seq |-> "#7", partner |-> p]
Init ==
  /\ done = FALSE
  /\ \E kids \in SUBSET {P1, P2}, has \in SUBSET {P1, P2}, keyed \in SUBSET {P1, P2}, m \in {<<0, 0>>, <<52, 18>>}, i \in {P1, P2}, mask \in {{}, {"#11", "#26"}} :
       b = [nwk |-> <<1, 240>>, ieee |-> i, type |-> "coordinator", model |-> Nul, manufacturer |-> "m", version |-> "", epan |-> P2, pan |-> <<171, 205>>,
            update |-> "#255", manager |-> m, channel |-> "#15", mask |-> mask, level |-> "#5", source |-> "s", stack |-> "{}", meta |-> "{}", created |-> "2020",
            nkey |-> KeyFor(P2, 3), tkey |-> KeyFor(P1, 77), keys |-> {KeyFor(p, p[1] + 1) : p \in keyed}, children |-> kids,
            nwks |-> {[ieee |-> p, nwk |-> <<p[1], 250>>] : p \in has}]
Next == ~done /\ done' = TRUE /\ b' = b
Spec == Init /\ [][Next]_vars
TreeOf == [metadata |-> [version |-> "#1", format |-> "zigpy/open-coordinator-backup", source |-> b.source,
                         internal |-> [creation_time |-> b.created,
                                       node |-> [ieee |-> Big(b.ieee), nwk |-> Big(b.nwk), type |-> b.type, model |-> b.model, manufacturer |-> b.manufacturer, version |-> b.version],
                                       network |-> [tc_link_key |-> [key |-> Plain(b.tkey.key), frame_counter |-> b.tkey.tx],
                                                    tc_address |-> Big(b.tkey.partner), nwk_manager |-> Big(b.manager)]]],
           stack_specific |-> b.stack, coordinator_ieee |-> Big(b.ieee), pan_id |-> Big(b.pan), extended_pan_id |-> Big(b.epan),
           nwk_update_id |-> b.update, security_level |-> b.level, channel |-> b.channel, channel_mask |-> SetToSeq(b.mask),
           network_key |-> [key |-> Plain(b.nkey.key), sequence_number |-> b.nkey.seq, frame_counter |-> b.nkey.tx],
           devices |-> SetToSeq({DeviceOf(b, p) : p \in Known(b)})]
Seqs == SetToSeq({<<Big(k.partner), k.seq>> : k \in b.keys})
Bytes(s) == [k \in 1..(Len(s) \div 2) |-> CHOOSE x \in 0..255 : Hex2(x, Lower) = SubSeq(s, 2 * k - 1, 2 * k)]
DeviceBack(d) ==
  LET nwk == IF d.nwk_address = Nul THEN <<>> ELSE Bytes(d.nwk_address)
  IN IF "link_key" \in DOMAIN d THEN [ieee_address |-> Bytes(d.ieee_address), nwk_address |-> nwk, is_child |-> d.is_child, link_key |-> [d.link_key EXCEPT !.key = Bytes(@)]]
     ELSE [ieee_address |-> Bytes(d.ieee_address), nwk_address |-> nwk, is_child |-> d.is_child]
Decoded ==
  LET t == TreeOf
      i == t.metadata.internal
  IN [source |-> t.metadata.source, seqs |-> [k \in DOMAIN Seqs |-> <<Bytes(Seqs[k][1]), Seqs[k][2]>>], extra |-> b.meta, created |-> i.creation_time,
      node |-> [i.node EXCEPT !.ieee = Bytes(@), !.nwk = Bytes(@)],
      network |-> [tc_link_key |-> [i.network.tc_link_key EXCEPT !.key = Bytes(@)], tc_address |-> Bytes(i.network.tc_address), nwk_manager |-> Bytes(i.network.nwk_manager)],
      coordinator_ieee |-> Bytes(t.coordinator_ieee), pan_id |-> Bytes(t.pan_id), extended_pan_id |-> Bytes(t.extended_pan_id), nwk_update_id |-> t.nwk_update_id,
      security_level |-> t.security_level, channel |-> t.channel, channel_mask |-> t.channel_mask, stack_specific |-> t.stack_specific,
      network_key |-> [t.network_key EXCEPT !.key = Bytes(@)], devices |-> [k \in DOMAIN t.devices |-> DeviceBack(t.devices[k])]]
CanExport == Exported(b, TreeOf, Seqs, b.meta)
ComesBack == Imported(Decoded) = Carried(b)
=============================================================================
