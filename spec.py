"""What each check runs, and the bounds it states.

An entry is the name of a harness function (harness/src/c_*.rs), or a dict
with the witness tags it has to reach and engine options."""

ASSUMPTIONS = [
    "rustc 1.99.1 at opt-level 2 (no vectorisation) translates the crates to the LLVM IR that is encoded; overflow checks and debug assertions are on",
    "rsx (engine/) gives LLVM IR its documented semantics; sampled paths of every entry are replayed on natively compiled code (opt-level 0) and must observe the same, and every counterexample must reproduce there before it is reported",
    "the outside world is the environment model of the engine and harness/src/env.rs: read, write, send, recv, socket, bind, listen, accept, connect, shutdown and close on the standard streams and one socket per connection, futex waits, a clock that advances only when every thread sleeps, malloc that never fails",
    "threads switch at blocking calls, sleeps and yields; the schedules explored are the delays (rjit/wjit/settle) of the entries, not every interleaving of instructions: the library's threads share data only through crossbeam channels",
    "crossbeam-channel, serde, serde_json, url and std are encoded too, as compiled; their spin/park decisions under real parallelism are not",
    "logging (tracing) has no subscriber, so its fields are not formatted; C18 formats messages explicitly",
    "the hash seeds of the process are fixed; floating point is evaluated on concrete values only (a symbolic one is split into its values)",
]

STREAM = "at most 5 frames per stream (6 items: custom and typed requests, notifications, responses, errors, exit), bodies of 30-200 bytes unless stated"

PROPS = {
    "C01": dict(
        quick=["h_c01_text", "h_c01_pad", "h_c01_seq", "h_c01_keys", "h_c01_values", "h_c01_wide", dict(entry="h_c01_huge", max_steps=3000000000)],
        bounds="8 message forms; one free character of every UTF-8 length 1-4 plus one free ASCII character (quotes, backslash, controls included), then a second frame; body lengths 80..65536 at 22 values around powers of ten and two and buffer sizes, one- and two-byte filling; sequences of 3 messages (8^3 forms, free text of 1-3 characters) on stdio, accepted and connected sockets; texts of 150 kB, 1, 2 and 5 MB; objects with members named like the protocol's or by 3 free characters inside params, result and data; integers of 8 sizes of either sign with a free last digit to the ends of 64 bits, fractions, exponents and 12 other shapes in 4 places; texts of 90-9000 bytes of 4-byte characters at every shift; arrays of 2000 and objects of 600",
        outside="bodies beyond 5 MB (300 kB under split writes); more than one non-ASCII character at free positions",
    ),
    "C02": dict(
        quick=["h_c02_split", "h_c02_split2", "h_c02_chunks", "h_c02_eintr", "h_c02_headers", "h_c02_boundary", "h_c02_large", "h_c02_text", "h_c02_escape", "h_c02_order", "h_c02_space", "h_c02_many", dict(entry="h_c02_huge", max_steps=3000000000), "h_c02_names", "h_c02_fields", "h_c02_alike", "h_c02_charset"],
        bounds=STREAM + "; every split point of a 4-frame stream, every pair of split points of a 2-frame stream, every fixed read size 1-40; EINTR (once or twice in a row) at every read; other header fields of 1-15 name and 0-4 value characters at 5 places, and every name that has Content-Length in it with 1-3 free characters around, or differs from it in one place; second frame at each of 90 offsets around the 8 KiB buffer edge; bodies up to 100 kB at 16 sizes and of 0.25, 1, 2 and 5 MB; every character as itself, as \\uXXXX, as a surrogate pair and as a short escape; all 8^3 orders of kinds; stdio, listening and connecting transports; streams of 20, 100, 400 and 1100 frames read whole, by 61 and (20) by 7 bytes; 3-300 further header fields and header lines of 70-20000 bytes; 14 texts that look like frames or protocol; 12 header names of other protocols with 14 of their values and 0-2 free characters",
        outside="read sizes that vary more than twice within one stream",
    ),
    "C03": dict(
        quick=["h_c03_mutate", "h_c03_mutate2", "h_c03_insert", "h_c03_delete", "h_c03_truncate", "h_c03_length", "h_c03_huge", "h_c03_raw", "h_c03_utf8", "h_c03_io", "h_c03_deep", "h_c03_body3", "h_c03_blank", "h_c03_wide", "h_c03_between"],
        thorough=["h_c03_body"],
        bounds="any byte of 4 base streams replaced by any byte; any 2 neighbouring bytes of one; any byte inserted anywhere in 2; 1-2 bytes deleted anywhere in 4; truncation everywhere; any 1-3 bytes as the announced length, and 12 huge lengths with a free last digit; whole streams of 0-4 free bytes, also before a good frame; strings with 1-4 free bytes >= 0x80 in every string position; read errors (5 errnos) at every read of a 3-frame stream; nesting up to 20000; memory asked for at once is bounded by the bytes received + 1 MiB; bodies, params, ids and further members of 0-3 (thorough 4) free bytes, and bodies of 0-300 blanks, with good frames behind; texts of 90-5000 bytes of 4-byte characters at every shift in 9 kinds of malformed input; 1-3 free bytes between two good frames on the three transports",
        outside="combinations of several distant faults in one frame; header blocks longer than about 100 bytes",
    ),
    "C04": dict(
        quick=["h_c04_members", "h_c04_order", "h_c04_extra", "h_c04_repeat", "h_c04_array", "h_c04_params", "h_c04_body", "h_c04_proto", "h_c04_anyname", "h_c04_errname", "h_c04_nested"],
        bounds="every combination of 10 id forms x method forms x params forms x result forms x error forms; every order of up to 5 members; unknown members with free 2-character names and values of 8 shapes at every place; every member repeated; arrays in place of objects; each known method with params missing, null, incomplete or of a wrong type; escaped spellings of member names; unknown members with names of 1-12 free characters in the message and 1-9 in its error; members named like the protocol's inside params, result and data, values of 15 shapes",
        outside="names of unknown members longer than 12 characters with free content",
    ),
    "C05": dict(
        quick=["h_c05_typed", "h_c05_near", "h_c05_custom", "h_c05_bare", "h_c05_case", "h_c05_anymethod", "h_c05_pair", "h_c05_fold", "h_c05_long", "h_c05_many", "h_c05_alike", "h_c05_names"],
        bounds="all 14 request methods; every known name with any one character replaced by any other (free character and place), appended or cut; custom names of 0-3 free characters; 8 shapes of params and none, with free text inside; integer ids and 1-character string ids; methods of 0-40 free characters; two custom methods of 1-3 free characters in one stream; known names cut, doubled, extended by 2 free characters, in other case or with 2 changed places; methods of 17-5000 characters of 4 sorts with a free last one; 5-300 different names of 4 forms on one connection, one of them again; two different names of 4-33 free characters each; known names under other prefixes, endings, cases, separators and orders, with fitting params",
        outside="known names changed at more than 2 places",
    ),
    "C06": dict(
        quick=["h_c06_typed", "h_c06_near", "h_c06_custom", "h_c06_bare", "h_c06_params", "h_c06_anymethod", "h_c06_pair", "h_c06_names"],
        bounds="all 9 notification methods; every known name with any one character replaced, appended or cut; custom names of 0-3 free characters; 8 shapes of params and none; request names without an id and notification names with one; methods of 0-40 free characters; two custom methods of 1-3 free characters in one stream; known names under other prefixes, endings, cases, separators and orders, with fitting params",
        outside="as C05",
    ),
    "C07": dict(
        quick=["h_c07_ok", "h_c07_err", "h_c07_code", "h_c07_helpers", "h_c07_refuse", "h_c07_values", "h_c07_any", "h_c07_pair", "h_c07_echo", "h_c07_long"],
        bounds="results of 8 shapes; error codes of 1-5 free digits and either sign and the ends of the 32-bit range; messages with one character of every UTF-8 length; data of 8 shapes or none; all 12 named constructors with free 2-character texts; malformed error objects of 9 kinds; messages of 0-3 free characters with 10 codes, ids of every sort and data of 15 shapes; two responses of 8 kinds in a row; decoded responses written back in either member order; texts of 50-950 characters with two free ones in 4 places",
        outside="error messages longer than 3 characters with free content",
    ),
    "C08": dict(
        quick=["h_c08_ints", "h_c08_text", "h_c08_like", "h_c08_bound", "h_c08_laws", "h_c08_strlaws", "h_c08_emit", "h_c08_from", "h_c08_stream", "h_c08_free", "h_c08_digits", "h_c08_long", "h_c08_longlaws"],
        thorough=[dict(entry="h_c08_longtext", reach=["c08_text"])],
        bounds="integer ids of 1-6 free digits and either sign, and 14 values around the 32- and 64-bit ends with a free last digit, in 4 message kinds; string ids of 0-1 (thorough 0-3) free characters plus one of every UTF-8 length; texts of 1-3 digits, signs, dots and spaces; equality, order and hash over three free 32-bit ids, over an integer and a free 2-character text, and over three texts of 0-2 free characters; ids made from texts of 0-6 free characters and decoded from 0-5; ids of several messages in one stream; 16 beginnings of numbers (1-19 characters) with 0-3 free characters behind; texts of 7-5000 characters of 3 sorts with a free character at either end; the laws over three texts that share 3-255 characters and differ in a free one before or behind",
        outside="string ids with more than 6 free characters at once",
    ),
    "C09": dict(
        quick=["h_c09_opts", "h_c09_shapes", "h_c09_sizes", "h_c09_text", "h_c09_numbers", "h_c09_sets", "h_c09_subsets", "h_c09_long", "h_c09_uris", "h_c09_missing"],
        bounds="all 11 typed requests: each optional member alone present, alone absent, null, all, none; 8 shapes of free-form data; lists of 0-3 elements, texts of 0, 1 and 5 free characters; one free character of every UTF-8 length in each string; numbers of 1-18 digits in data; both member orders; every subset of the optional members (missing or null); texts of 17, 33 and 260 characters, lists of 9 and 17; 19 forms of URI; every required member missing, null or an object",
        outside="longer lists and texts",
    ),
    "C10": dict(
        quick=["h_c10_opts", "h_c10_shapes", "h_c10_sizes", "h_c10_numbers", "h_c10_text", "h_c10_build", "h_c10_blank", "h_c10_subsets", "h_c10_long", "h_c10_uris", "h_c10_missing"],
        bounds="all 12 result types, as C09; exit codes, positions and counts at the ends of their ranges; results built through the API, with free 2-character texts and with empty or blank ones; every subset of the optional members (missing or null); texts of 17, 33 and 260 characters, lists of 9 and 17; 19 forms of URI; every required member missing, null or an object",
        outside="longer lists and texts",
    ),
    "C11": dict(
        quick=["h_c11_opts", "h_c11_shapes", "h_c11_sizes", "h_c11_numbers", "h_c11_text", "h_c11_build", "h_c11_blank", "h_c11_subsets", "h_c11_long", "h_c11_uris", "h_c11_missing"],
        bounds="all 7 notifications with params, as C09; 64-bit event times, 32-bit counters and diagnostic codes; notifications built through the API, with free 2-character texts and with empty or blank ones; every subset of the optional members (missing or null); texts of 17, 33 and 260 characters, lists of 9 and 17; 19 forms of URI; every required member missing, null or an object",
        outside="longer lists and texts; non-ASCII text in diagnostic codes",
    ),
    "C12": dict(
        quick=["h_c12_memory", "h_c12_refuse", "h_c12_finish", "h_c12_lost", "h_c12_params", "h_c12_result", "h_c12_wire", "h_c12_order", "h_c12_ids", "h_c12_long", dict(entry="h_c12_idle", samples=1), "h_c12_wide", "h_c12_any", "h_c12_twice", "h_c12_overlap"],
        thorough=["h_c12_deep"],
        bounds="every history of 0-2 (thorough 0-4) messages of 8 kinds before initialize; 12 kinds of message, or a lost peer, in place of initialized; a lost peer at every stage; free 32-bit and 0-2 character ids; 6 kinds of result; delays of 0-1 (reader) and 0-2 (writer) turns on the three transports; histories of 17, 66, 260 and 1100 messages, of one kind or all in turn; silences of 2 s to an hour before, between and inside the steps; texts of 90-5000 bytes of 4-byte characters at every shift in 8 places; messages of any name of 1-4 free characters before initialize and in place of initialized; 2-3 handshakes in a row, on one connection or several, ended in 4 ways; two handshakes that overlap in 4 ways",
        outside="longer histories of free order",
    ),
    "C13": dict(
        quick=["h_c13_other", "h_c13_near", "h_c13_shutdown", "h_c13_lost", "h_c13_order", "h_c13_wire", dict(entry="h_c13_time", samples=1), "h_c13_long", "h_c13_wide", "h_c13_any", "h_c13_busy", "h_c13_twice", "h_c13_overlap"],
        bounds="every request kind, and the shutdown method with any one character replaced; 11 kinds of message, or a lost peer, after shutdown; free 32-bit and 1-character ids; exit 0-45 s later at 11 times; whole sessions of 7 frames on the three transports; shutdown after 3-1200 other requests and up to an hour of silence; messages of any name of 1-4 free characters after shutdown; texts of 90-5000 bytes of 4-byte characters at every shift; 0-2 earlier answers still being written to a peer that has stopped reading for 0-45 s, exit 5 s after the answer; 2-3 shutdowns in a row, on one connection or several, with 4 kinds of next message; two shutdowns on two connections that overlap by 0-29 s",
        outside="other arrival times of exit",
    ),
    "C14": dict(
        quick=["h_c14_exit", "h_c14_live", "h_c14_pause", "h_c14_drop", "h_c14_eof", "h_c14_late", "h_c14_many", dict(entry="h_c14_idle", samples=1), "h_c14_near"],
        bounds="0-2 messages before exit, 5 kinds of bytes behind it, peer open or closed; 8x8 kinds with 0-30 bytes of the next frame already there; a pause at every byte of a 2-frame stream; the connection dropped after 0-3 messages; late receivers; three transports; 10-1100 messages waiting up to 400 s for a receiver; silences of 2 s to an hour at 8 places of a frame, first or second; 9 kinds of message that resemble exit (any one character replaced, appended or put in front, with an id, inside params)",
        outside="more than 1100 messages waiting",
    ),
    "C15": dict(
        quick=["h_c15_split", "h_c15_split2", "h_c15_chunks", "h_c15_eintr", "h_c15_error", "h_c15_once", "h_c15_flush", "h_c15_drain", "h_c15_two", "h_c15_large", "h_c15_after", "h_c15_many", "h_c15_stall", dict(entry="h_c15_idle", samples=1), "h_c15_crowd", "h_c15_kinds"],
        bounds="first write accepting 1-160 bytes, first two 1-60 each, fixed write sizes 1-40; EINTR once or twice at 8 places; 5 errnos at 5 places, for one write or for all that follow; 3 idle-to-busy rounds; 0-3 messages then drop, writer delayed 0-3 turns; two senders of 2 and 3 messages at 3 relative speeds; bodies to 300 kB; reader ended in 4 ways; 12-1100 messages in one go; a peer that takes nothing after 0-700 bytes for up to 10 min; silences of 2 s to an hour between messages; 2-4 senders of 1-4 messages, each in one of the 4 ways of sending, with delays of 0-5 turns at each write; every pair of 11 kinds of message followed by another",
        outside="more than 4 senders",
    ),
    "C16": dict(
        quick=["h_c16_decode", "h_c16_encode", "h_c16_wrap"],
        bounds="every numeric enumeration of the protocol: numbers of 1-6 free digits and either sign, whole numbers written as fractions or with exponents, values that alias a valid one modulo 2^8, 2^16 or 2^32, and the other JSON types; every member written",
        outside="numbers of more than 6 digits other than those",
    ),
    "C17": dict(
        quick=["h_c17_ports", "h_c17_fail", "h_c17_scarce", "h_c17_close", "h_c17_duplex", "h_c17_same", "h_c17_many", dict(entry="h_c17_idle", samples=1), "h_c17_stall", "h_c17_both", "h_c17_addrs"],
        bounds="any 16-bit port, either role; 5 errnos; each of the first 5 calls that need a descriptor failing with one of 4 errnos, with a further connection afterwards; 5 ways a connection ends; 3 rounds of one-sided traffic in either order; 11 message kinds through stdio and both socket roles; two connections one after the other; silences of 2 s to an hour before each message of either direction; input while output is held up, up to 10 min; two connections at once (stdio or socket with socket), one held up or in mid-message while the other works and ends in 5 ways; lists of 1-3 free IPv4 or IPv6 addresses of which any number refuses with one of 5 errnos",
        outside="host names (std's resolver)",
    ),
    "C18": dict(
        quick=["h_c18_request", "h_c18_notif", "h_c18_custom", "h_c18_memory", "h_c18_closed", "h_c18_full", "h_c18_timeout", "h_c18_errors", "h_c18_debug", "h_c18_server", "h_c18_clone", "h_c18_subsets", "h_c18_nsubsets", "h_c18_names", "h_c18_many", "h_c18_pingpong", "h_c18_wide", dict(entry="h_c18_patience", samples=1), dict(entry="h_c18_edge", samples=2)],
        bounds="every typed request and notification and custom ones with free 1-2 character texts; free 32-bit ids; sequences of 3 messages each sent one of 4 ways in either direction; closed and full channels of capacity 0-1; timeouts with a receiver before or after; Debug of every kind; every subset of optional members; custom messages with every known name; 33-1100 messages queued each way of sending; 300 question and answer rounds; Debug and Display of texts of 90-5000 bytes of 4-byte characters at every shift; timeouts and deadlines of 20 s to an hour, met after a tenth to seven tenths of it or missed, capacities 0-2; timeouts of 0, 1 ns and without end and deadlines at or before now with the end empty, full, closed, waiting or an hour late",
        outside="capacities above 2",
    ),
    "C19": dict(
        quick=["h_c19_request", "h_c19_setters", "h_c19_twice", "h_c19_values", "h_c19_results", "h_c19_rtwice", "h_c19_rvalues", "h_c19_tags", "h_c19_words", "h_c19_parents"],
        bounds="every payload constructor with free 2-character texts; every setter with every other member set or not, every setter after every other, with texts of 0-300 free characters, none, and lists of 0-20 equal or different elements; every predefined tag and task data kind, also with one character replaced or cut, joined to another by 6 separators, in another case or order, or with blanks around; 0-5 parents of a task of 0-2 free characters, equal or different",
        outside="longer texts",
    ),
}
