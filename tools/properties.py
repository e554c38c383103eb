"""Generates /verif/properties.jsonl (one JSON object per line)."""
import json, pathlib

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Every request completes exactly once, with its own reply",
 "A unicast request to a device that awaits a reply finishes exactly once: with the contents of the first reply that came from that same device carrying the request's transaction sequence number while it was pending, or with the delivery error, or with the parse error of that reply, or with a timeout that elapses no earlier and no later than the chosen number of seconds after the frame was handed to the radio (28 s instead of a shorter chosen value for end devices and devices with an unknown node descriptor). "
 "Replies from other devices, with other sequence numbers, repeated or late never complete or disturb a request. "
 "After success, failure, timeout or cancellation nothing stays pending: the sequence number can be used again at once.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of starting requests, send completions and failures, replies (right, foreign, duplicate, late, malformed), timer expiry and caller cancellation, over several devices and sequence numbers",
 "Tests await one request at a time with one canned reply; no test interleaves several outstanding requests with duplicate/late/foreign replies, cancellations and timeouts.",
 ["zigpy/device.py", "zigpy/util.py"],
 [("Device.request / timeout choice", "zigpy/device.py:Device.request"), ("pending request table", "zigpy/util.py:Requests, Request"), ("reply resolution", "zigpy/device.py:Device.packet_received")],
 ["result/exception of Device.request", "packets given to the radio's send_packet"],
 [("_pending", "sequence number -> waiter", "zigpy/device.py:Device.__init__")])

prop("C02", "The concurrency limiter never over-admits, loses a wakeup or reorders",
 "The number of holders of the priority limiter never exceeds its capacity (as resized so far, except by holders admitted before a shrink), and whenever a slot is free and somebody is waiting, a waiter is admitted without any further event, whatever callers are cancelled and however the capacity is changed. "
 "Waiters are admitted highest priority first and first-come first-served within a priority, and a newcomer never overtakes a waiter of equal or higher priority that is already queued. "
 "Releasing more often than acquiring is refused.",
 ["schedules", "histories"],
 "every sequence of acquire/release/cancel/resize at every scheduling point of the event loop, for any capacities and priorities",
 "Tests run a handful of fixed schedules with sleeps; cancellation between wake-up and resumption, resizes with cancelled waiters and barging are never exercised.",
 ["zigpy/datastructures.py"],
 [("PriorityDynamicBoundedSemaphore", "zigpy/datastructures.py:PriorityDynamicBoundedSemaphore.acquire/release/_wake_up_next/max_value"), ("PriorityLock", "zigpy/datastructures.py:PriorityLock")],
 ["acquire()/release() completion, .value, .locked(), .num_waiting"])

prop("C03", "Requests to one device are serialized by priority; radio limit is honoured",
 "At most one request that awaits a reply is in progress per device and it keeps its turn until it has been answered, failed, timed out or was cancelled; the queued ones follow highest priority first, in arrival order within a priority, independently of other devices. "
 "Requests that do not await a reply queue for their turn in the same way. "
 "Radio-wide, no more packets than the configured maximum are ever being sent at once when the radio library uses the application's request limiter, also while priorities differ and when requests fail or are cancelled.",
 ["schedules", "fault_sequences"],
 "every interleaving of requests of several priorities to several devices with replies, send failures, timeouts and cancellations, for any configured maximum",
 "Existing tests issue one or two requests in a fixed order; ordering and exclusivity over interleavings with failures and cancellations are not sampled.",
 ["zigpy/device.py", "zigpy/application.py", "zigpy/datastructures.py"],
 [("per device concurrency", "zigpy/device.py:Device._limit_concurrency/request"), ("radio concurrency", "zigpy/application.py:ControllerApplication._limit_concurrency")],
 ["order of packets given to send_packet", "request completion"])

prop("C04", "Duplicate packets are dropped within 10 s and only then",
 "A packet that a known device's state lets through is processed iff no packet identical in everything but reception metadata (time, link quality, signal strength, APS sequence number) was processed from that device less than ten seconds before; in particular a repeat at or after ten seconds is processed again, and different packets are never dropped. "
 "Dropping one does not extend the window. "
 "Last-seen time and link metrics are updated from dropped packets too.",
 ["histories", "inputs", "schedules"],
 "every sequence of packets with any arrival times, contents and devices",
 "Tests send one duplicate immediately and one after the window; mixes of several in-flight packets with different expiry are not sampled.",
 ["zigpy/datastructures.py", "zigpy/device.py"],
 [("Debouncer", "zigpy/datastructures.py:Debouncer"), ("packet identity", "zigpy/device.py:Device.packet_received")],
 ["listener invocations", "device.last_seen/lqi/rssi"])

prop("C05", "Response listeners see each matching message exactly as registered",
 "A one-shot response listener resolves with the first message from its device (or from any device, when registered so) that matches one of its filters, and consumes that message for the listeners after it - those for any device come before those for the device, each in order of registration; callback listeners are invoked once for every matching message until their registration ends, and never after. Listeners registered while a message is being delivered see only later ones. "
 "Replies that belong to a pending request are delivered to that request only. "
 "Timeouts and cancellations of waiters unregister them, and an error in a callback does not keep other listeners or the regular handlers from receiving the message.",
 ["schedules", "histories"],
 "every interleaving of registering, unregistering, timing out, cancelling listeners and receiving messages from several devices",
 "Tests register one or two listeners and feed one message; combinations of overlapping listeners with register/unregister during delivery are unsampled.",
 ["zigpy/listeners.py", "zigpy/application.py", "zigpy/device.py"],
 [("listener matching", "zigpy/listeners.py:BaseRequestListener, FutureListener, CallbackListener"), ("dispatch", "zigpy/device.py:Device.packet_received"), ("registration contexts", "zigpy/application.py:ControllerApplication.wait_for_response/callback_for_response")],
 ["callback invocations", "wait_for_response result"])

prop("C06", "No received packet can make packet reception fail",
 "Handing any packet received from a node (identified by network or IEEE address) - any destination address mode, endpoints, profile, cluster and payload bytes, truncated or malformed ones included - to the application never raises to the radio library, whatever the state of the sending device, as long as the users' own handlers do not. "
 "A malformed packet changes nothing but last-seen data and link metrics, except that a pending request whose reply it is fails with the parse error. "
 "Packets received afterwards are processed normally.",
 ["inputs", "histories"],
 "every packet header combination and payload byte string, in every device state, before and after other packets",
 "Tests use a few hand-written malformed frames; the cross product of header shapes, truncation points and device states is not covered.",
 ["zigpy/application.py", "zigpy/device.py", "zigpy/endpoint.py", "zigpy/zdo/__init__.py", "zigpy/zcl/__init__.py", "zigpy/zcl/foundation.py"],
 [("packet_received", "zigpy/application.py:ControllerApplication.packet_received"), ("device packet_received", "zigpy/device.py:Device.packet_received"), ("header/payload parsing", "zigpy/endpoint.py:Endpoint.deserialize, zigpy/zdo/__init__.py:ZDO.deserialize")],
 ["exceptions out of packet_received", "message events"])

prop("C07", "Unknown and half-initialized senders are discovered and gated",
 "A packet from an unknown network address is not processed but makes the coordinator ask the network for that node's identity; a packet from a known device is announced to application listeners and, when it is taken on (duplicates included), updates its last-seen time and link metrics. "
 "Until a device is fully interviewed only device-management traffic is processed normally for it, plus application traffic once its endpoints (or one Basic cluster) are known; any other packet is offered to the quirks' early-recognition handlers and makes the application interview the device unless an interview is already running. "
 "Fully interviewed devices process every packet and are never re-interviewed because of traffic.",
 ["histories", "inputs"],
 "every history of packets over all device knowledge states and interview states",
 "Tests check single packets in single states; the state x packet matrix over histories is not covered.",
 ["zigpy/application.py", "zigpy/device.py", "zigpy/quirks/__init__.py"],
 [("packet_received", "zigpy/application.py:ControllerApplication.packet_received"), ("discover unknown", "zigpy/application.py:ControllerApplication._discover_unknown_device"), ("quirk handlers", "zigpy/quirks/__init__.py:handle_message_from_uninitialized_sender")],
 ["packets sent", "app listener events", "device.handle_message calls"])

prop("C08", "Joins, rejoins and address changes keep one consistent record per node",
 "However device announcements, address responses and radio join reports arrive, every IEEE address has at most one device record, which carries the network address last reported for it. "
 "A join is announced to listeners exactly once per first appearance and once per network address change, never for repeated announcements at the same address; every announcement (re)starts the interview of a device not yet interviewed, replacing one in progress. "
 "A rejoin at an unchanged address of a fully interviewed device only rescans its group membership, and mere address responses at an unchanged address trigger no group rescan. "
 "A node that joins while its removal is still going on counts as unknown: it gets a fresh record.",
 ["histories", "schedules"],
 "every history of join reports, announcements, address responses, leaves and interview completions for several nodes swapping network addresses",
 "Tests cover isolated join events; sequences where several nodes exchange addresses mid-interview are not covered.",
 ["zigpy/application.py", "zigpy/device.py"],
 [("handle_join/leave", "zigpy/application.py:ControllerApplication.handle_join"), ("ZDO sniffing", "zigpy/application.py:ControllerApplication.packet_received"), ("schedule_initialize", "zigpy/device.py:Device.schedule_initialize")],
 ["device_joined/device_left/raw_device_initialized/device_initialized events", "application.devices"])

prop("C09", "A device interview either completes consistently or fails retryably",
 "An interview queries what is still missing, in the order node descriptor, active endpoints, every endpoint's simple descriptor, then model and manufacturer; the whole is attempted at most five times half a second apart and what was learned is kept, so that another attempt or a later interview resumes where the last one failed and never repeats a completed step. "
 "At most one interview runs per device; starting a new one cancels the previous. "
 "An interview ends with exactly one announcement: completion, once every step is done, or failure, after the fifth failed attempt or at once after an unexpected error; a failed one is started again by the next packet of a device that still lacks its node descriptor or an endpoint's description.",
 ["fault_sequences", "schedules", "histories"],
 "every sequence of answers, status errors, timeouts and delivery failures for every step, with restarts of the interview at any point",
 "Tests mock whole phases with one or two failures; sequences of failures across phases and restarts mid-phase are not covered.",
 ["zigpy/device.py", "zigpy/endpoint.py", "zigpy/util.py"],
 [("initialize", "zigpy/device.py:Device._initialize/schedule_initialize/initialize"), ("endpoint initialize", "zigpy/endpoint.py:Endpoint.initialize/get_model_info"), ("retryable", "zigpy/util.py:retryable_request")],
 ["ZDO/ZCL requests sent", "device_initialized / device_init_failure events", "Device.is_initialized etc."])

prop("C10", "Removing a device always finishes and takes it out of the network",
 "Removing a known device cancels its interview, announces the removal exactly once, asks the device - and, for an end device, the parents the topology knows - to leave, and takes it out of the device table once the leave request was answered, has failed in whatever way or has gone unanswered for seven (an end device: thirty) seconds. "
 "While it waits, packets of the device do not start a new interview, and a node that joins anew meanwhile gets a fresh record that the end of the removal leaves alone. "
 "Removing an unknown device does nothing.",
 ["schedules", "fault_sequences", "histories"],
 "every outcome and delay of the leave request, concurrent joins and repeated removals",
 "Tests exercise removal with an immediate answer or failure only.",
 ["zigpy/application.py", "zigpy/appdb.py", "zigpy/group.py"],
 [("remove", "zigpy/application.py:ControllerApplication.remove/_remove_device"), ("on_remove", "zigpy/device.py:Device.on_remove")],
 ["application.devices", "device_removed event", "database contents"])

prop("C11", "A restart restores what was known",
 "After an orderly shutdown and restart from the same database, the application has the same interviewed devices with the same network addresses, interview status, node descriptors, endpoints, clusters, model information, attribute values and unsupported attributes, groups with the same names and members, relays, neighbor and routing tables and network backups as before. "
 "Everything removed before the shutdown - devices, groups, members, attributes, backups - is still gone. "
 "Last-seen times and attribute timestamps are at most thirty seconds older than the latest ones.",
 ["histories"],
 "every history of joins, interviews, attribute updates, group changes, topology scans, backups, removals and restarts",
 "Tests save and load a few fixed states; arbitrary event histories (re-adds, removals, NWK swaps, updates to same rows) are not covered.",
 ["zigpy/appdb.py", "zigpy/application.py", "zigpy/group.py", "zigpy/backups.py", "zigpy/topology.py"],
 [("persisting listener", "zigpy/appdb.py:PersistingListener"), ("load", "zigpy/appdb.py:PersistingListener.load")],
 ["application state after restart"])

prop("C12", "A crash loses only the newest events and never corrupts the database",
 "If the process dies at any moment, the next start succeeds and restores exactly the state after some prefix of the persisted events, never a partly applied event, and at least everything that had been persisted before the crash. "
 "An event whose persistence fails leaves no partial effect and does not prevent later events from being persisted. "
 "Events are persisted in the order in which they happened; what a finished interview stores about its device may already include later changes of that device.",
 ["crash_points", "histories", "fault_sequences"],
 "a crash between any two database operations of any event history, and a failing database operation at any position",
 "No test kills the writer between statements or makes individual statements fail.",
 ["zigpy/appdb.py"],
 [("worker", "zigpy/appdb.py:PersistingListener._worker/enqueue"), ("per-event handlers", "zigpy/appdb.py:PersistingListener._*"), ("transactions", "zigpy/appdb.py:PersistingListener._transaction")],
 ["database file after any SQL statement"])

prop("C13", "Database migrations are lossless, atomic and refuse what they cannot do",
 "Opening a database of any older schema version migrates all its devices, endpoints, clusters, attributes, groups, relays, neighbors and routes to the current schema, whatever version it started from, and opening it again changes nothing. "
 "If the process dies or an operation fails at any point during migration, the database is left at its original version with its original contents and the next start migrates it completely. "
 "A database of a newer schema version is refused or left untouched rather than rewritten.",
 ["crash_points", "histories", "configurations", "fault_sequences"],
 "every start version and content, and every crash or failure point in the migration",
 "Tests migrate a few fixed fixtures without interruptions.",
 ["zigpy/appdb.py", "zigpy/appdb_schemas/__init__.py"],
 [("migrations", "zigpy/appdb.py:PersistingListener._run_migrations/_migrate_to_v*"), ("table copy", "zigpy/appdb.py:PersistingListener._migrate_tables")],
 ["database contents", "PRAGMA user_version", "application state"])

prop("C14", "Group membership is always mutual and follows the device's answer",
 "At all times an endpoint lists a group exactly when that group lists the endpoint as a member, through every add, remove, group deletion and membership scan. "
 "Asking a device to join or leave a group changes the local membership only if the device answered with success (or, respectively, that it already was a member / never was one). "
 "Membership changes are announced exactly once per actual change.",
 ["histories", "fault_sequences"],
 "every history of group operations, device answers and membership scans over several groups and endpoints",
 "Tests check single operations from clean states.",
 ["zigpy/group.py", "zigpy/endpoint.py", "zigpy/zcl/clusters/general.py"],
 [("Groups/Group", "zigpy/group.py:Groups, Group"), ("endpoint", "zigpy/endpoint.py:Endpoint.add_to_group/remove_from_group/group_membership_scan")],
 ["group.members, endpoint.member_of, group events"])

prop("C15", "The backup history only holds useful backups and restores safely",
 "Adding a backup keeps it unless it is incomplete, and drops every older compatible backup whose frame counter is not larger, so that no two compatible backups of one network differ only by an outdated counter; backups of other networks or a compatible one with a larger counter stay. "
 "Each addition and removal is announced exactly once, a recorded backup never changes afterwards, and periodic backups go on when one failed. "
 "Restoring refuses an incomplete backup unless asked to allow it, writes the backup's settings with the frame counter advanced by the chosen increment, and by default records a fresh backup afterwards.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of added/created/restored/loaded backups with any counters and networks, and failures at any step",
 "Tests add two or three fixed backups.",
 ["zigpy/backups.py"],
 [("BackupManager", "zigpy/backups.py:BackupManager.add_backup/create_backup/restore_backup/_backup_loop"), ("compatibility", "zigpy/backups.py:NetworkBackup.is_compatible_with/supersedes")],
 ["manager.backups", "backup events", "write_network_info arguments"])

prop("C16", "Start-up forms, restores or joins exactly the network it should",
 "Start-up never writes network settings to a radio that already has them; a radio without a network is formed only if automatic formation was requested, restoring the newest backup when one exists and otherwise forming a fresh network with valid, non-reserved identifiers and the configured values; settings that contradict a configured and required value are refused. "
 "A failed start-up leaves the radio disconnected and all background work stopped, and failures caused by a lost connection are reported as transient. "
 "The network is closed for joining when start-up completes.",
 ["configurations", "fault_sequences", "inputs"],
 "every combination of configuration, radio state, backups and failure of each start-up step",
 "Tests sample few combinations; the randomised network parameters are sampled once.",
 ["zigpy/application.py"],
 [("startup/initialize", "zigpy/application.py:ControllerApplication.startup/initialize"), ("form_network", "zigpy/application.py:ControllerApplication.form_network")],
 ["radio API calls", "exceptions"])

prop("C17", "Backups survive the interchange format unchanged",
 "Exporting any network state to the open coordinator backup format and importing it again gives back the same network and node settings, device keys, frame counters and time, for every value of every field the format carries (it has no place for the received-counter of the network and trust center keys, and none for metadata under its own names). "
 "Exports have the documented layout and represent identifiers in the documented byte order; files with optional parts missing are read with the documented defaults. "
 "The same holds for the native dictionary format, which loses nothing at all.",
 ["inputs"],
 "every network state: identifiers, keys, channel masks, counters, children, address tables, link keys, metadata",
 "Tests round-trip one or two fixtures with palindromic identifiers.",
 ["zigpy/backups.py", "zigpy/state.py"],
 [("open coordinator format", "zigpy/backups.py:_network_backup_to_open_coordinator_backup/_open_coordinator_backup_to_network_backup"), ("dict", "zigpy/state.py:NetworkInfo.as_dict/from_dict")],
 ["NetworkBackup.as_open_coordinator_json/from_dict"])

prop("C18", "A topology scan records exactly the tables the devices reported",
 "A scan of a router pages through its neighbor and routing tables from the start until the announced number of entries has been read or an empty page arrives, retrying a failed page three times, and then replaces that device's stored tables by exactly the valid entries received; end devices are not scanned. "
 "If a table cannot be read the previously stored one is kept, and a device that rejects the request as unsupported is not asked for that table again. "
 "Addresses found in the tables that are unknown are looked up on the network, and every stored table is announced once.",
 ["inputs", "fault_sequences", "histories"],
 "every page structure, entry contents, status and failure at every request over several scans",
 "Tests use one-page and one two-page table with few failure positions.",
 ["zigpy/topology.py", "zigpy/zdo/__init__.py"],
 [("scan table", "zigpy/topology.py:Topology._scan_table/_scan_neighbors/_scan_routes"), ("scan", "zigpy/topology.py:Topology._scan/_find_unknown_devices")],
 ["Mgmt_Lqi_req/Mgmt_Rtg_req requests", "topology.neighbors/routes", "neighbors_updated/routes_updated events"])

prop("C19", "Scans never overlap, periodic ones keep running, stopping really stops",
 "At most one topology scan runs at any time: a newly requested scan cancels one in progress. "
 "Once started, periodic scanning performs a scan at every period whatever the outcome of earlier scans, until it is stopped; after stopping (or shutting down) no further scan starts. "
 "A scan's caller learns about its cancellation.",
 ["schedules", "fault_sequences"],
 "every interleaving of start/stop of periodic scans, manual scans, their completion, failure and cancellation, including during an ongoing scan",
 "Tests start and stop at quiet points only.",
 ["zigpy/topology.py"],
 [("scan loop", "zigpy/topology.py:Topology.start_periodic_scans/stop_periodic_scans/_scan_loop/scan")],
 ["requests sent by scans"])

prop("C20", "The attribute cache tells what the device last said",
 "A cluster's cached value of an attribute is the value most recently reported or read by, or successfully written to, the device, with the corresponding update time and an update event; failed or rejected reads and writes never alter cached values. "
 "A read returns every value and every failure status that the device gave for the attributes asked for; when the device rejects the whole read, every attribute asked for fails with the status of that rejection. "
 "Cached values are served, and known unsupported attributes not asked for again, only where the caller allowed the cache. "
 "An attribute is marked unsupported exactly when the device answers a read or a reporting configuration so, and unmarked when it is read successfully or its reporting is configured successfully. Each change is told to listeners exactly once.",
 ["histories", "inputs", "fault_sequences"],
 "every history of reads, writes, reports, configure-reporting exchanges with every per-attribute status and value",
 "Tests use single exchanges with one or two attributes.",
 ["zigpy/zcl/__init__.py"],
 [("read/write", "zigpy/zcl/__init__.py:Cluster.read_attributes/write_attributes/_update_attribute"), ("reports", "zigpy/zcl/__init__.py:Cluster.handle_cluster_general_request"), ("unsupported", "zigpy/zcl/__init__.py:Cluster.add_unsupported_attribute/remove_unsupported_attribute")],
 ["read_attributes result, cluster.get(), attribute_updated events"])

prop("C21", "Commands from devices are answered as ZCL demands",
 "For every attribute report received from a device that has not disabled default responses, exactly one default response is sent that carries the sequence number, command and success status, and none otherwise; replies go back to the sender and endpoint that asked. "
 "A read request is answered once, listing every requested attribute in order with the locally provided value (power source, ZCL version, time, time zone, ...) or an unsupported status. "
 "A zone status change notification is acknowledged with a default response unless the device disabled it, an image query is answered with no-image-available and a block request with abort while no update of the device is in progress, and by the update alone while it is. "
 "Responses are never answered, so two nodes cannot ping-pong.",
 ["inputs", "histories"],
 "every received command with every flag combination, direction and attribute list",
 "Tests check few fixed frames.",
 ["zigpy/zcl/__init__.py", "zigpy/zcl/clusters/general.py", "zigpy/zcl/foundation.py"],
 [("general request", "zigpy/zcl/__init__.py:Cluster.handle_cluster_general_request/send_default_rsp"), ("attribute providers", "zigpy/zcl/clusters/general.py")],
 ["packets sent"])

prop("C22", "An OTA transfer serves exactly the image and always ends",
 "During a firmware update every block request in range is answered with exactly the bytes of the image at the requested offset, never more than the device asked for or the protocol limit, whatever the order, repetition or overlap of requests; a request beyond the end ends the update as malformed. "
 "The update ends exactly once: with the status the device reports at its end, with a timeout thirty seconds after the notification or the last block served, with failure if the device cannot be notified or answered, or with 'no image available' if the device's own query shows that the image does not fit it; requests arriving afterwards are turned down. "
 "Progress reported is the share of the image served and never comes after the end or a cancellation; only one update per device runs at a time, and a successful one makes the known version void and reads it again.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "every sequence of device requests with any offsets and sizes, delays, duplicates, failures and end statuses",
 "Tests replay one ideal download and a few failures.",
 ["zigpy/ota/manager.py", "zigpy/device.py"],
 [("OTAManager", "zigpy/ota/manager.py:OTAManager"), ("update_firmware", "zigpy/device.py:Device.update_firmware, zigpy/ota/manager.py:update_firmware")],
 ["packets sent", "progress callback", "return status"])

prop("C23", "OTA offers only compatible, newer, unambiguous images, best first",
 "The images offered as upgrades for a device are exactly those of the known images that match its manufacturer, type, model, hardware and current version constraints and are newer than its current version, best version first and more specific first among equal versions. "
 "Different files claiming the same version and specificity are all withheld, and images whose download fails or takes over 20 s, whose file is not what was announced (size, checksum, container), or whose contents turn out not to fit the device are not offered. "
 "An index is asked for at most once a day, concurrent queries share the loads and downloads under way, and a provider failing or being slow to answer does not affect images of other providers.",
 ["inputs", "configurations", "histories"],
 "every set of image metadata and device query, and download outcome",
 "Tests check fixed sets of a few images.",
 ["zigpy/ota/__init__.py", "zigpy/ota/providers.py", "zigpy/ota/validators.py"],
 [("selection", "zigpy/ota/__init__.py:OTA.get_ota_images"), ("compatibility", "zigpy/ota/__init__.py:OtaImageWithMetadata.check_compatibility/check_version/specificity")],
 ["get_ota_images result"])

prop("C24", "The watchdog notices a dead radio; shutdown ends everything once",
 "While running, the radio is probed at start and then once per watchdog period; the first probe that fails reports the connection lost, once, with its error, and ends probing, and nothing is reported while probes succeed. "
 "From the moment a shutdown is requested no periodic activity (probing, topology scans, backups, OTA broadcasts) does anything any more, even if it had been started several times, the radio is disconnected, and shutting down twice is harmless. "
 "A failure of one shutdown step does not keep the remaining ones from happening.",
 ["schedules", "fault_sequences"],
 "every sequence of probe outcomes and every moment of shutdown",
 "Tests check single shutdowns at a quiet moment.",
 ["zigpy/application.py"],
 [("watchdog", "zigpy/application.py:ControllerApplication._watchdog_loop"), ("shutdown", "zigpy/application.py:ControllerApplication.shutdown/connection_lost")],
 ["radio API calls", "connection_lost events"])

prop("C25", "Retries and shared calls are exact",
 "A retried operation is attempted until it first succeeds, fails with a non-retryable error or has been tried the allowed number of times, pausing the given delay between attempts, and its outcome is that of the last attempt. "
 "Concurrent identical calls that are to be combined run the operation once and all get its outcome; a call after it finished starts a new one, and different arguments are never combined. "
 "Cancelling one combined caller does not affect the others.",
 ["schedules", "fault_sequences"],
 "every outcome sequence, number of tries, and every interleaving of combined callers and cancellations",
 "Tests use a couple of outcome sequences and simultaneous callers without cancellation.",
 ["zigpy/util.py"],
 [("retry", "zigpy/util.py:retry/retryable"), ("combine", "zigpy/util.py:combine_concurrent_calls")],
 ["calls of the wrapped function", "outcomes"])

prop("C26", "Counters never go down and timeouts fire once, when due",
 "Radio event counters always show the total over all resets: they never decrease, each increment and each update adds exactly what was reported, and a source that restarts from a lower value is added rather than lost; a counter group can be incremented with tags, and each level of tags counts its own. "
 "A reschedulable timeout fires exactly once per (re)scheduling chain, at the last scheduled time, not before and never after it was cancelled. "
 "Resetting a counter is visible in its reset count.",
 ["histories", "schedules"],
 "every sequence of counter updates, increments and resets; every sequence of schedule, reschedule, cancel and time advance",
 "Tests use a few fixed sequences.",
 ["zigpy/state.py", "zigpy/datastructures.py"],
 [("Counter", "zigpy/state.py:Counter, CounterGroup"), ("ReschedulableTimeout", "zigpy/datastructures.py:ReschedulableTimeout")],
 ["counter values", "callback invocations"])

prop("C27", "The most specific matching quirk is chosen, and replacement keeps the state",
 "For any device the quirk used is determined by the documented order - declarative matches first, then class signatures from exact manufacturer and model to wildcards, newest registration first - and a device that no signature matches exactly is left alone; ambiguous declarative matches are an error. "
 "Applying a quirk keeps the device's identity and interview results, and the cached attribute values of the clusters it does not replace (class quirks: when they ask for it); the device has exactly the endpoints and clusters the quirk declares. "
 "Registering and removing quirks affects exactly the given one.",
 ["inputs", "histories", "configurations"],
 "every registry content and device signature",
 "Tests check fixed registries with few quirks.",
 ["zigpy/quirks/registry.py", "zigpy/quirks/__init__.py", "zigpy/quirks/v2/__init__.py"],
 [("registry", "zigpy/quirks/registry.py:DeviceRegistry.get_device/_match"), ("replacement", "zigpy/quirks/__init__.py:CustomDevice")],
 ["get_device result"])

prop("C28", "Wire encodings are inverse, exact and total",
 "Encoding a value of any wire type and decoding the bytes gives back the value and exactly the unconsumed rest, and decoding any byte string either succeeds with a value that encodes to the consumed bytes (where those are an encoding of a value at all, which text cut at a NUL and the like are not) or fails with a value error, never by another error. "
 "Frame headers, management messages and attribute records have the byte layout the Zigbee specifications prescribe: little-endian, declared field order, optional trailing parts only when present. "
 "Values outside a type's range are refused rather than truncated.",
 ["inputs"],
 "every value of every wire type and every byte string",
 "Tests use sample values per type.",
 ["zigpy/types/basic.py", "zigpy/types/struct.py", "zigpy/types/named.py", "zigpy/zcl/foundation.py", "zigpy/zdo/types.py"],
 [("types", "zigpy/types/basic.py"), ("Struct", "zigpy/types/struct.py"), ("ZCL header", "zigpy/zcl/foundation.py:ZCLHeader"), ("ZDO", "zigpy/zdo/types.py")],
 ["serialize/deserialize"])

prop("C29", "OTA image files parse to what they contain and nothing else",
 "Any OTA upgrade image built from valid header fields and sub-elements parses back to the same header, elements and byte string, also inside every supported vendor wrapper, and trailing bytes are never silently swallowed. "
 "An image whose header, lengths or sub-elements are inconsistent or truncated is rejected with a value error, and never fails in any other way. "
 "Checksummed containers are accepted only if the checksum matches, and embedded firmware of a known format is judged valid exactly if it is complete and its checksum matches.",
 ["inputs"],
 "every image structure, length field, truncation and corruption",
 "Tests parse a few fixed images.",
 ["zigpy/ota/image.py", "zigpy/ota/validators.py"],
 [("image parsing", "zigpy/ota/image.py:OTAImage, parse_ota_image"), ("validators", "zigpy/ota/validators.py")],
 ["parse_ota_image result"])

prop("C30", "Outgoing packets are addressed, numbered and flagged as requested",
 "Every unicast, multicast and broadcast leaves exactly one packet whose source, destination, endpoints, profile, cluster, sequence number, radius, payload and acknowledgement and route options are those asked for and configured at the moment it leaves, and delivery failures reach the caller (a node that could not be reached to open its network for joining is only logged, an unsupported energy scan reports zeros). "
 "Sequence numbers handed out by a device or by the application step by one modulo 256, independently of each other. "
 "Opening the network for joining reaches the asked node, or all routers and the coordinator when none is named; a network channel change is announced with the next update identifier and completes only when the radio reports the new channel. Questions of the network about the coordinator's own addresses and services are answered, questions about others are not.",
 ["inputs", "configurations", "histories"],
 "every argument combination and configuration, any number of calls",
 "Tests check a few fixed calls.",
 ["zigpy/application.py", "zigpy/device.py"],
 [("request/mrequest/broadcast", "zigpy/application.py:ControllerApplication.request/mrequest/broadcast/build_source_route_to"), ("permit", "zigpy/application.py:ControllerApplication.permit"), ("move network", "zigpy/application.py:ControllerApplication.move_network_to_channel")],
 ["packets given to send_packet"])

prop("C31", "An event reaches every listener once, whatever other listeners do",
 "Emitting an event calls every listener and context listener registered at that moment that handles it exactly once, with the event's arguments, in registration order; an exception in one is contained and does not keep others from being called, nor reaches the emitter. "
 "A listener is not called by any event emitted after its removal. "
 "Listeners on a group or device see only that object's events. An asynchronous event returns what every listener's coroutine returned, failures left out.",
 ["histories", "programs"],
 "every set of listeners (failing, missing handlers, adding or removing listeners while being called) and every sequence of events",
 "Tests register one or two well-behaved listeners.",
 ["zigpy/util.py"],
 [("listener bus", "zigpy/util.py:ListenableMixin, LocalLogMixin, CatchingTaskMixin")],
 ["listener invocations"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
