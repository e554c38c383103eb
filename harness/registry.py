"""property id -> (module, function), and the MANIFEST texts"""
CHECKS = {
    "C01": ("requests", "check_c01"),
    "C02": ("limiter", "check"),
    "C03": ("requests", "check_c03"),
    "C04": ("reception", "check_c04"),
    "C05": ("reception", "check_c05"),
    "C06": ("reception", "check_c06"),
    "C07": ("reception", "check_c07"),
    "C08": ("nodes", "check_c08"),
    "C09": ("nodes", "check_c09"),
    "C10": ("nodes", "check_c10"),
    "C11": ("store", "check_c11"),
    "C12": ("store", "check_c12"),
    "C13": ("migrate", "check_c13"),
    "C14": ("groups", "check_c14"),
    "C15": ("life", "check_c15"),
    "C16": ("life", "check_c16"),
    "C17": ("formats", "check_c17"),
    "C18": ("topo", "check_c18"),
    "C19": ("topo", "check_c19"),
    "C20": ("zcl", "check_c20"),
    "C21": ("zcl", "check_c21"),
    "C22": ("transfer", "check_c22"),
    "C23": ("select_", "check_c23"),
    "C24": ("life", "check_c24"),
    "C25": ("utils", "check_c25"),
    "C26": ("small", "check_c26"),
    "C27": ("quirks_", "check_c27"),
    "C28": ("codec", "check_c28"),
    "C29": ("images", "check_c29"),
    "C30": ("outgoing", "check_c30"),
    "C31": ("small", "check_c31"),
}
TV = "TLA+ specification model checked with TLC; traces of the real code validated against it by TLC"
EX = ("TLC explores a small instance of the specification exhaustively; the code is bound to it by replaying "
      "scripts and seeded random histories into the real code and having TLC accept or reject each recorded trace. ")
NOTES = {
    "C01": (TV, EX + "Histories: several devices, reused sequence numbers, failures, cancellations, late and malformed replies, virtual time."),
    "C02": (TV + "; scripts generated by TLC",
            EX + "The code is exercised with every TLC-generated script of the quick depth (sampled above 9000) and with random histories."),
    "C03": (TV, EX + "Histories biased to contention: priorities, cancellations at every stage, all radio limits 1..8."),
    "C04": (TV, EX + "Packet histories biased to repeats around the end of the window, many packets in flight at once."),
    "C05": (TV, EX + "Packet histories with many overlapping one-shot and callback listeners, registered and removed inside of callbacks."),
    "C06": (TV, EX + "Packet histories with malformed frames, and byte-level: mutated, truncated and random packets to devices in every state."),
    "C07": (TV, EX + "Packet histories over devices in every state of knowledge, with interviews timing out and quirk handlers completing devices."),
    "C08": (TV, EX + "Histories of join reports, announcements and address responses for several nodes, interviews under way, answers late, wrong, missing."),
    "C09": (TV, EX + "Histories of interviews failing at every step in every way, resumed by traffic and joins."),
    "C10": (TV, EX + "Histories of removals with every outcome and delay of the leave request, joins and traffic meanwhile."),
    "C11": (TV, EX + "Histories of interviews, attribute, group, topology and backup changes, removals and restarts on a virtual clock, with and without quirks."),
    "C12": (TV, EX + "The database file is captured before every statement the writer issues and loaded again, statements are made to fail, processes die and start again."),
    "C13": (TV, EX + "Databases of every schema version 0-13 with random contents are opened; the file is captured before every statement and opened again, statements fail."),
    "C14": (TV, EX + "Histories of group changes by calls and by group commands with every answer, scans, unknown members, and device removals."),
    "C15": (TV, EX + "Histories of added, created, restored and superseded backups, radios updating the state in place, failures of every radio call."),
    "C16": (TV, EX + "Start-ups under every configuration, radio state and backup history, every radio call failing in every way or slow, extreme random values."),
    "C17": (TV, EX + "Random backups over extreme and random values of every field, exported, written, imported and read; foreign files with optional parts missing."),
    "C18": (TV, EX + "Histories of scans over tables of every size and content with failing, refused, partial and late pages."),
    "C19": (TV, EX + "Histories of overlapping, cancelled, periodic and stopped scans on a virtual clock."),
    "C20": (TV, EX + "Histories of reads, writes, reporting configurations, reports and local changes on standard and quirk clusters, with every per-attribute status, misfitting values, failures, late answers."),
    "C21": (TV, EX + "Histories of received commands of every kind and flag, the answers compared byte for byte."),
    "C22": (TV, EX + "Histories of updates of several devices: requests in any order, size and overlap, delays, duplicates, failing answers, cancellations, stalls, ends of every status."),
    "C23": (TV, EX + "Histories of queries of two devices against up to four providers of 11 kinds: indexes with overlapping entries and restrictions, failing, slow and malformed indexes and files, days passing, cancellations."),
    "C24": (TV, EX + "Watchdog outcomes and delays, periodic activities of every period, shutdowns at any moment and repeated, repeated initialization, on a virtual clock."),
    "C25": (TV, EX + "retryable with every mixture of outcomes, and combined calls with cancellations."),
    "C26": (TV, EX + "Random histories of counter updates and of timer calls on a virtual clock."),
    "C27": (TV, EX + "Registries of up to seven class and declared quirks, nearly and exactly matching devices, registered, removed and purged in any order."),
    "C28": (TV, EX + "Random values and truncated, extended, corrupted and random byte strings of every ZCL type, general command, device profile message, header, and of random record types; TLC computes what each byte string means."),
    "C29": (TV, EX + "Files of every structure, wrapper, truncation and corruption, with embedded firmware; TLC computes what each parses to. Hashes and CRCs are supplied as facts."),
    "C30": (TV, EX + "Histories of calls of every kind with random arguments, changing addresses, routes and settings, failures, delays and late replies."),
    "C31": (TV, EX + "Random programs of listeners that fail, lack handlers, add and remove listeners while being called."),
}
NOT_APPLICABLE = {}
