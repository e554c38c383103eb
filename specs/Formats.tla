------------------------------- MODULE Formats -------------------------------
(* Interchange formats of network backups (C17).                               *)
(*                                                                             *)
(* A backup:  addresses and keys as bytes as sent over the air (addresses      *)
(* least significant byte first);  numbers, absent things and other data as    *)
(* opaque strings, "#12", "#null";  text as it is.                             *)
(*   nwk, ieee, type, model, manufacturer, version: the node                   *)
(*   epan, pan, update, manager, channel, mask (a set), level, source,         *)
(*   stack, meta (further data, opaque; date: when it names one), created      *)
(*   nkey, tkey: keys [key, tx, rx, seq, partner];  keys: set of keys          *)
(*   children: set of addresses;  nwks: set of [ieee, nwk]                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Nul == "#null"
Zero == "#0"
Lower == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Upper == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex2(x, digits) == digits[(x \div 16) + 1] \o digits[(x % 16) + 1]
RECURSIVE Text(_, _, _)
Text(b, digits, sep) == IF b = <<>> THEN "" ELSE IF Len(b) = 1 THEN Hex2(b[1], digits) ELSE Hex2(b[1], digits) \o sep \o Text(Tail(b), digits, sep)
Big(b) == Text(Reverse(b), Lower, "")        \* most significant byte first
Plain(b) == Text(b, Lower, "")               \* as it is
S(s) == {s[k] : k \in 1..Len(s)}
TypeNames == {"coordinator", "router", "end_device"}

-----------------------------------------------------------------------------
(* the open coordinator backup format *)
Partners(b) == {k.partner : k \in b.keys}
KeyOf(b, p) == CHOOSE k \in b.keys : k.partner = p
Known(b) == {x.ieee : x \in b.nwks} \cup b.children \cup Partners(b)
DeviceOf(b, p) ==
  LET nwk == IF \E x \in b.nwks : x.ieee = p THEN Big((CHOOSE x \in b.nwks : x.ieee = p).nwk) ELSE Nul
      k == KeyOf(b, p)
  IN IF p \in Partners(b)
     THEN [ieee_address |-> Big(p), nwk_address |-> nwk, is_child |-> p \in b.children, link_key |-> [key |-> Plain(k.key), tx_counter |-> k.tx, rx_counter |-> k.rx]]
     ELSE [ieee_address |-> Big(p), nwk_address |-> nwk, is_child |-> p \in b.children]
\* j: the exported object;  seqs: its link_key_seqs as pairs;  extra: what else its "internal" part holds;  tree: the rest
Exported(b, tree, seqs, extra) ==
  /\ [tree EXCEPT !.devices = <<>>, !.channel_mask = <<>>] =
     [metadata |-> [version |-> "#1", format |-> "zigpy/open-coordinator-backup", source |-> b.source,
                    internal |-> [creation_time |-> b.created,
                                  node |-> [ieee |-> Big(b.ieee), nwk |-> Big(b.nwk), type |-> b.type, model |-> b.model, manufacturer |-> b.manufacturer, version |-> b.version],
                                  network |-> [tc_link_key |-> [key |-> Plain(b.tkey.key), frame_counter |-> b.tkey.tx],
                                               tc_address |-> Big(b.tkey.partner), nwk_manager |-> Big(b.manager)]]],
      stack_specific |-> b.stack, coordinator_ieee |-> Big(b.ieee), pan_id |-> Big(b.pan), extended_pan_id |-> Big(b.epan),
      nwk_update_id |-> b.update, security_level |-> b.level, channel |-> b.channel, channel_mask |-> <<>>,
      network_key |-> [key |-> Plain(b.nkey.key), sequence_number |-> b.nkey.seq, frame_counter |-> b.nkey.tx], devices |-> <<>>]
  /\ S(tree.devices) = {DeviceOf(b, p) : p \in Known(b)} /\ Len(tree.devices) = Cardinality(Known(b))
  /\ S(tree.channel_mask) = b.mask /\ Len(tree.channel_mask) = Cardinality(b.mask)
  /\ S(seqs) = {<<Big(k.partner), k.seq>> : k \in b.keys} /\ Len(seqs) = Cardinality(b.keys)
  /\ extra = b.meta

\* j: an object of this format, hexadecimal fields as bytes;  parts that are not there have no field.  What it is as a backup
Or(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
DefaultTcLink == <<90, 105, 103, 66, 101, 101, 65, 108, 108, 105, 97, 110, 99, 101, 48, 57>>
Rev(x) == Reverse(x)
Imported(j) ==
  LET node == Or(j, "node", [x |-> 0])
      net == Or(j, "network", [x |-> 0])
      seqs == S(j.seqs)
      Seq1(p) == IF \E s \in seqs : s[1] = p THEN (CHOOSE s \in seqs : s[1] = p)[2] ELSE Zero
      devs == S(j.devices)
  IN [nwk |-> Rev(Or(node, "nwk", <<0, 0>>)), ieee |-> Rev(j.coordinator_ieee), type |-> Or(node, "type", "coordinator"),
      model |-> Or(node, "model", Nul), manufacturer |-> Or(node, "manufacturer", Nul), version |-> Or(node, "version", Nul),
      epan |-> Rev(j.extended_pan_id), pan |-> Rev(j.pan_id), update |-> j.nwk_update_id, manager |-> Rev(Or(net, "nwk_manager", <<0, 0>>)),
      channel |-> j.channel, mask |-> S(j.channel_mask), level |-> j.security_level, source |-> j.source,
      stack |-> Or(j, "stack_specific", "{}"), meta |-> j.extra, created |-> Or(j, "created", Or(j, "date", "1970-01-01T00:00:00+00:00")),
      nkey |-> [key |-> j.network_key.key, tx |-> j.network_key.frame_counter, seq |-> j.network_key.sequence_number],
      tkey |-> IF "tc_link_key" \in DOMAIN net THEN [key |-> net.tc_link_key.key, tx |-> Or(net.tc_link_key, "frame_counter", Zero), partner |-> Rev(net.tc_address)]
               ELSE [key |-> DefaultTcLink, tx |-> Zero, partner |-> Rev(j.coordinator_ieee)],
      keys |-> {[key |-> d.link_key.key, tx |-> d.link_key.tx_counter, rx |-> d.link_key.rx_counter, seq |-> Seq1(d.ieee_address), partner |-> Rev(d.ieee_address)]
                : d \in {x \in devs : "link_key" \in DOMAIN x}},
      children |-> {Rev(d.ieee_address) : d \in {x \in devs : Or(x, "is_child", TRUE)}},
      nwks |-> {[ieee |-> Rev(d.ieee_address), nwk |-> Rev(d.nwk_address)] : d \in {x \in devs : x.nwk_address # <<>>}}]
\* what the format carries of a backup
Carried(b) == [b EXCEPT !.nkey = [key |-> @.key, tx |-> @.tx, seq |-> @.seq], !.tkey = [key |-> @.key, tx |-> @.tx, partner |-> @.partner]]

-----------------------------------------------------------------------------
(* the native format *)
Colons(b) == Text(b, Lower, ":")
Address(b) == Text(Reverse(b), Lower, ":")
Short(b) == Text(Reverse(b), Upper, "")
NativeKey(k) == [key |-> Colons(k.key), tx_counter |-> k.tx, rx_counter |-> k.rx, seq |-> k.seq, partner_ieee |-> Address(k.partner)]
\* tree: the object, without the parts whose order means nothing, which are given apart: nwks as pairs
Written(b, tree, nwks) ==
  /\ [tree EXCEPT !.network_info.key_table = <<>>, !.network_info.children = <<>>, !.network_info.channel_mask = <<>>] =
     [version |-> "#1", backup_time |-> b.created,
      node_info |-> [nwk |-> Short(b.nwk), ieee |-> Address(b.ieee), logical_type |-> b.type, model |-> b.model, manufacturer |-> b.manufacturer, version |-> b.version],
      network_info |-> [extended_pan_id |-> Address(b.epan), pan_id |-> Short(b.pan), nwk_update_id |-> b.update, nwk_manager_id |-> Short(b.manager), channel |-> b.channel,
                        channel_mask |-> <<>>, security_level |-> b.level, network_key |-> NativeKey(b.nkey), tc_link_key |-> NativeKey(b.tkey), key_table |-> <<>>, children |-> <<>>,
                        stack_specific |-> b.stack, metadata |-> b.meta, source |-> b.source]]
  /\ S(tree.network_info.key_table) = {NativeKey(k) : k \in b.keys} /\ Len(tree.network_info.key_table) = Cardinality(b.keys)
  /\ S(tree.network_info.children) = {Address(c) : c \in b.children} /\ Len(tree.network_info.children) = Cardinality(b.children)
  /\ S(tree.network_info.channel_mask) = b.mask
  /\ S(nwks) = {<<Address(x.ieee), Short(x.nwk)>> : x \in b.nwks} /\ Len(nwks) = Cardinality(b.nwks)
=============================================================================
