#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

NOTEST = "No test in the repository calls this code at all; "

p("C01", "Base58 encoding is canonical and decoding inverts it",
  "Encoding any byte string in base58 yields exactly the canonical text (Bitcoin alphabet, one '1' per leading zero byte, shortest digits for the rest), NUL-terminated, and the allocating encoder reports exactly that text's length. Decoding that text gives back exactly the original bytes and their number. Encoding into a caller's buffer never writes more than the given size: it stores the longest prefix that fits, and the terminator when there is room.",
  ["inputs"], "every byte string (any length, any number of leading zeros) and every output buffer size",
  "The tests check 14 fixed strings, never look at the reported length and never use the fixed-buffer form; carry propagation and the size estimate depend on length and leading zeros.",
  ["coda/base58.c", "coda/base58.h"],
  [("big-integer base conversion with a size estimate", "coda/base58.c: coda_base58_encode, coda_base58_encode_alloc"), ("inverse conversion", "coda/base58.c: coda_base58_decode, coda_base58_decode_alloc")],
  observe=["return values and output buffers of the public base58 functions"])

p("C02", "Base58 decoding rejects every text that is not base58",
  "Decoding a text with a character outside the base58 alphabet fails with a negative result that gives the 1-based position of the first such character, and the allocating decoder then returns no buffer and leaks nothing. Any text made only of alphabet characters decodes successfully to the number it denotes (one zero byte per leading '1'), reading only the given length. The membership predicate accepts exactly the 58 alphabet characters.",
  ["inputs"], "every text over all 256 byte values, every length and every position of the offending character",
  "The tests only decode texts the encoder has just produced, so no rejection path, position or foreign character is ever exercised.",
  ["coda/base58.c"],
  [("alphabet table", "coda/base58.c: b58, coda_isbase58"), ("rejection and cleanup", "coda/base58.c: coda_base58_decode, coda_base58_decode_alloc")],
  observe=["return value, *out and heap balance of the decoders"])

p("C03", "Base64 codec is RFC 4648 exact, bounded and strict",
  "Base64 encoding produces exactly the RFC 4648 padded text and decoding it returns the original bytes; into a smaller buffer each direction stores exactly the prefix that fits, reports the stored length, and terminates encoded text when there is room; the length macros tell the encoded length exactly and enough room for decoding. Decoding succeeds exactly on texts whose length is a multiple of four, made of alphabet characters with '=' padding only in the last one or two places, and fails on everything else, stopping at the offending group. The allocating forms report the documented results on success, invalid input, size overflow and allocation failure, and never leak.",
  ["inputs", "fault_sequences"], "every byte string, every candidate text, every buffer size, and an allocation failure at the allocating call",
  NOTEST + "acceptance must be right for every byte in every position of a group and every buffer size.",
  ["coda/base64.c", "coda/base64.h"],
  [("group encoder with early exit on a full buffer", "coda/base64.c: coda_base64_encode"), ("group decoder and padding rules", "coda/base64.c: coda_base64_decode"), ("overflow and allocation contract", "coda/base64.c: coda_base64_encode_alloc, coda_base64_decode_alloc")],
  observe=["outputs, lengths and results of the public base64 functions"])

p("C04", "Web64 (URL-safe base64) round-trips and rejects malformed text",
  "URL-safe base64 encoding uses only letters, digits, '-', '_' and '.' padding, equals standard base64 with those characters substituted, and decodes back to the original bytes. Encoding or decoding into a smaller buffer stores exactly the prefix that fits and never writes past the size given, and the length macros tell the encoded length exactly and enough room for decoding. Decoding fails on every text that is not correctly padded, has a wrong length or contains a foreign character.",
  ["inputs"], "every byte string, every candidate text and every buffer size",
  NOTEST + "the codec is a hand-edited copy of the base64 one with its own table and padding character.",
  ["coda/web64.c", "coda/web64.h"],
  [("group encoder/decoder and table", "coda/web64.c: web64_encode, web64_decode, b64, isweb64")],
  observe=["outputs, lengths and results of the public web64 functions"])

p("C05", "URL percent-encoding is reversible and buffer and string forms agree",
  "Percent-encoding any bytes yields only letters, digits, '-', '.', '_', '~', uppercase %XX triplets and (except in the no-plus form) '+' for space, and decoding it gives back the original bytes. Decoding any text turns '+' into a space, each '%' followed by two hex digits into that byte, and copies the rest, including a truncated '%' at the end, reading only the given length. The caller-buffer and string forms produce the same bytes, and the buffer forms return that length and terminate the text.",
  ["inputs"], "every byte string (all 256 values, NUL included) and every encoded or damaged text",
  "The repository's URL tool has no expected outputs and is not run; which bytes are escaped is a 256-bit table that only an exhaustive sweep can confirm.",
  ["coda/url.cpp", "coda/url.hpp"],
  [("escape bitmap and hex tables", "coda/url.cpp: table_urlenc, table_hexval, table_urldec"), ("encode/decode loops", "coda/url.cpp: coda_urlenc, coda_urlenc_noplus, coda_urldec")],
  observe=["outputs of all encode/decode overloads"])

p("C06", "Bounded URL escape/unescape helpers stay inside the buffer and are correct",
  "The helpers that escape, unescape or partially unescape a C string into a buffer of a given size never write outside that buffer, whatever the text and size, and always leave a terminated string there when the size is not zero. When the result fits, escaping gives the percent-encoded text, unescaping resolves '+', %XX, \\xXX and four-digit %uXXXX (below U+0800) and copies the rest, and partial unescaping resolves only escapes of non-ASCII bytes and copies everything else unchanged. When it does not fit, the result is a prefix of the full result.",
  ["inputs"], "every text and every destination size from zero up",
  NOTEST + "the failures are size-boundary and byte-value dependent (sizes below the reserve, bytes above 0x7f, truncated escapes).",
  ["coda/url.cpp", "coda/url.hpp"],
  [("size guards and escape recognition", "coda/url.cpp: coda_url_escape, coda_url_unescape, coda_url_preunescape")],
  observe=["destination buffer and red zones around it"])

p("C07", "Query-string and header parsing extract exactly the named fields",
  "Parsing a query string adds one entry per '&'-separated field that contains '=', keyed by the bytes before the first '=' with all the bytes after it as the value, the last of duplicate names winning; fields without '=' are ignored. Parsing a header block does the same for ':' over CRLF-separated lines and stops at the first empty line. Only the given length is read, entries already in the result under other names are untouched, and the C-string and length forms agree.",
  ["inputs"], "every byte string, including empty fields, missing separators, embedded NULs and unterminated buffers",
  NOTEST + "parsing must be right for every placement of separators, including at the ends and next to each other.",
  ["coda/url.cpp", "coda/string.c"],
  [("field splitting", "coda/url.cpp: coda_get_params_buf, coda_get_header_buf"), ("bounded searches", "coda/string.c: coda_strnchr, coda_strnstr")],
  observe=["resulting map and return code"])

p("C08", "Absolute URLs are brought to one normal form, from exactly the given bytes",
  "Creating an absolute URL from any non-empty byte range gives: the given http(s) scheme or http:// by default, the host in lower case without leading or trailing dots and ended by '/', a path without '.', '..' or empty segments that never climbs above the root and keeps a final '/' only for the root or when asked, the query unchanged, and no fragment. The reported domain is the last two labels of the host, lengths match the strings, and creating again from the result gives the same result. Only the given bytes are read, and creation over a non-empty object or from nothing fails and leaves the object empty.",
  ["inputs", "histories"], "every byte range and flag combination, and every sequence of creations on one object",
  "The only driver (tests/url_parser) is an interactive tool with no expected outputs; in-place path rewriting depends on every arrangement of '/', '.', '?', '#'.",
  ["coda/url_parser.cpp", "coda/url_parser.hpp"],
  [("scheme and host handling", "coda/url_parser.cpp: create_scheme, assign_anchor"), ("in-place path rewriting", "coda/url_parser.cpp: assign_refers")],
  state=[("URL text and domain", "one allocation holding both strings", "coda/url_parser.hpp: val_str, dom_str")],
  observe=["get_url, get_domain, their lengths, empty()"])

p("C09", "Relative URLs resolve against the parent; URL objects are independent values",
  "Resolving a reference against a parent URL gives: for an absolute http(s) reference its own normal form (refused when same-domain is requested and the domains differ), for one starting with '/' the parent's scheme and host plus that path, otherwise the parent's directory plus the reference, with the normalisation and query/fragment rules of absolute URLs and the parent's domain. Fragment-only, mailto: and javascript: references, an empty reference and an empty parent are refused and leave the object empty. Copies and assignments, including self-assignment, are equal to and independent of their source, with no double free or leak.",
  ["inputs", "histories"], "every reference, every parent URL and flag set, and every sequence of copy/assign/create/destroy",
  "No test resolves a relative URL or copies a URL object.",
  ["coda/url_parser.cpp", "coda/url_parser.hpp"],
  [("base selection and joining", "coda/url_parser.cpp: create_relative, create_suburl"), ("deep copy", "coda/url_parser.cpp: copy constructor, operator=")],
  observe=["get_url, get_domain, empty(), heap balance"])

p("C10", "The cache never exceeds its byte limit and evicts oldest entries first",
  "After any sequence of operations the estimated sizes of the stored values (a number's or pointer's own size, a string's or vector's object plus its whole buffer in bytes, a class's own estimate) add up to at most the configured maximum. When a set (insert or overwrite) would exceed it, entries are dropped strictly from the least recently set one on, and only as many as needed; a value larger than the whole limit is not kept. Every entry that was set and neither dropped, erased nor expired is returned with the last value set, erase reports whether the key was present, and the element count and byte total the cache reports agree with its contents.",
  ["histories"], "every sequence of set, get and erase over any keys, value sizes and limits",
  "The cache test performs one set and prints; it asserts nothing, never reaches the limit, never overwrites and never erases.",
  ["coda/cache.hpp", "coda/cache.tcc", "coda/estimate_capacity.hpp"],
  [("recency list relinking", "coda/cache.tcc: set, erase"), ("eviction", "coda/cache.tcc: drop_last_unused"), ("size estimation", "coda/estimate_capacity.hpp")],
  state=[("recency list", "doubly linked through map nodes, oldest first", "coda/cache.hpp: begp, endp"), ("byte total", "sum of stored value sizes", "coda/cache.hpp: size_cur")],
  observe=["get, set, erase and the debug dump"])

p("C11", "Cached entries expire exactly when their lifetime has passed",
  "With a lifetime limit, an entry is returned as long as its age is at most the limit and is never returned (and is removed) once older; with limit zero it never expires. Age counts from insertion, or from the last overwrite that asked for the time to be updated; an overwrite that did not ask keeps the old age. A copying lookup that finds nothing valid leaves the caller's value unchanged.",
  ["histories"], "every interleaving of clock advances with set, get and erase, for every lifetime",
  "The test sleeps for a few real seconds with one key and asserts nothing; the boundary second and time-preserving overwrites are never checked.",
  ["coda/cache.hpp", "coda/cache.tcc"],
  [("age comparison", "coda/cache.tcc: both get forms"), ("creation/refresh of the time stamp", "coda/cache.hpp: elem_t; coda/cache.tcc: set")],
  observe=["get results under a controlled clock"])

p("C12", "String searches and spans match their definition and stay in bounds",
  "Every character, substring, span and complement-span search (forward or backward, exact or ignoring ASCII case, terminated or length-delimited) returns exactly the first (or, backward, last) match or the maximal run length its definition gives, and its 'not found' value otherwise. Length-delimited forms examine only the given bytes, treat NUL like any other byte and need no terminator, also when the length is zero. Backward spans count the matching bytes at the end of the range.",
  ["inputs"], "every buffer content over all byte values, every length, every needle or alphabet",
  NOTEST + "correctness depends on position, length, case and byte value, and over-reads of one byte are invisible without instrumentation.",
  ["coda/string.c", "coda/string.h"],
  [("search and span loops", "coda/string.c: coda_str*chr, coda_rev*chr, coda_str*str, coda_*spn, coda_*spc, coda_str*chp")],
  observe=["return values; reads outside the given range"])

p("C13", "Tokenising and number parsing are exact and invent nothing",
  "Splitting a string yields exactly the maximal pieces between delimiter bytes, in order, with empty pieces kept or dropped as asked, for terminated and length-delimited input alike; the string-set, number-set and next-word parsers yield exactly the elements present. Length-delimited number parsing returns the decimal value, negative for a leading '-' in the signed form, and 0 for any text that is not a number. Elements that are not numbers contribute nothing to a number set, and no parser reads beyond its input.",
  ["inputs"], "every text, delimiter set and number in range, including empty pieces, missing numbers and unterminated buffers",
  NOTEST + "uninitialised or out-of-range reads give plausible values that only an oracle and sanitizers over many inputs reveal.",
  ["coda/string.cpp", "coda/string.h", "coda/easy_parsing.cpp"],
  [("splitters and set parsers", "coda/string.cpp: coda_split_string, coda_get_stringset, coda_get_uint64set"), ("number parsers", "coda/string.h: coda_atou, coda_atoi"), ("word scanner", "coda/easy_parsing.cpp: get_next_word")],
  observe=["returned containers, values and positions"])

p("C14", "Formatted string building equals printf at every length",
  "Formatting into a string, appending, appending at most n characters and inserting at most n characters at a position produce exactly the text printf would, cut to the limit, at every length including around and far beyond any internal buffer size. The returned count is the number of characters added, the rest of the target string is unchanged, and inserting beyond the end, or a text that printf cannot format, fails with -1 (coda_strprintf: an empty text) and changes nothing. Arguments may refer to the target string itself.",
  ["inputs"], "every format/argument combination, output length, limit and position",
  "No test calls these functions except through the cache's debug dump with short lines; the interesting lengths are at the 32 KiB internal boundary and at the limit.",
  ["coda/string.cpp", "coda/string.hpp"],
  [("two-pass formatting with stack buffers", "coda/string.cpp: coda_strprintf, coda_strappend"), ("bounded formatting", "coda/string.cpp: coda_strnappend, coda_strnprintf")],
  observe=["resulting strings and return values"])

p("C15", "String storage maps each distinct string to its own stable slot",
  "Adding a string returns its data slot: the same address every time for the same string, different non-overlapping slots for different strings, zeroed when first created and never moved or disturbed by later additions. Enumeration reports every stored string (up to 255 bytes) exactly once, with its exact text and its own slot. Strings of every length are handled without touching memory out of bounds, those too long for a storage block are refused, and freeing the storage releases everything.",
  ["inputs", "histories"], "every set of strings, with any shared prefixes and lengths, in every insertion order, and every slot size",
  "The smoke test adds three strings, prints them and asserts nothing; errors need particular families of shared prefixes, prefix lengths or block-boundary lengths.",
  ["coda/stringstorage.c", "coda/stringstorage.h"],
  [("sorted prefix tree", "coda/stringstorage.c: internal_find_add"), ("block allocation", "coda/stringstorage.c: internal_find_add, string_storage_add"), ("key reconstruction", "coda/stringstorage.c: string_storage_enumerate_recursive")],
  state=[("prefix tree", "nodes sorted by shared-prefix length and remaining text", "coda/stringstorage.h: string_struct")],
  observe=["slots returned, slot contents, enumeration callbacks, heap balance"])

p("C16", "XML configuration loading is faithful, chunk-independent and fails cleanly",
  "Loading a well-formed XML document fills the bound members with exactly the document's values: text and attributes of the matching element path, decoded entities and CDATA, list and vector members with one item per element in document order, nested structures included, unknown elements ignored and unmentioned members untouched. Loading the same document from a string, from a length-delimited buffer or from a file, of any size, gives the same result. Documents are read as UTF-8 whatever they declare, numbers may have signs, leading zeros and white space around them. A malformed document or unreadable file raises an exception (naming the file, and for text loaded in one piece the error with its line and column), never crashes, and leaks neither memory nor file handles. (A bound value element carries text and attributes only; the text of a structure's own element is not specified.)",
  ["inputs", "fault_sequences"], "every document over the bound schema, every split of a file into read chunks, every truncation or corruption, and missing or unreadable files",
  "The one test loads a 30-byte string with two list items; no file, attribute, number, chunk boundary or error is exercised.",
  ["coda/txml.cpp", "coda/txml.hpp"],
  [("path matching and list growth", "coda/txml.hpp: determineMember, setValue"), ("event accumulation", "coda/txml.cpp: begelement, characters, endelement"), ("chunked file reading and error mapping", "coda/txml.cpp: load_from_file, parse, raise")],
  observe=["bound members, exceptions, heap and descriptor balance"])

p("C17", "Concurrent use of a shared map is linearizable across processes",
  "Reads, inserts and erases issued concurrently on one shared-memory map by any number of processes and threads behave as if executed one at a time in an order consistent with real time. A bulk insert or erase takes effect as one step, a reader never sees a partly written value, and nobody modifies the map while a reader or another writer holds its lock. An operation interrupted by a signal may fail with an exception and then has no effect.",
  ["schedules", "histories"], "every interleaving of operations from several processes and threads",
  "The map is not compiled by any test; a missing or weakened lock only shows under specific interleavings of several processes.",
  ["coda/shm_hash_map.hpp", "coda/shm_hash_map.tcc"],
  [("read/write lock on two semaphores", "coda/shm_hash_map.tcc: lock_read_rw, lock_write_rw, unlock_*"), ("operations under the lock", "coda/shm_hash_map.tcc: read, insert, erase, clear, size")],
  state=[("lock", "count of readers, writer flag", "semaphores 0 and 1 of the set")],
  observe=["call/return history of every client, values with integrity stamps"])

p("C18", "A shared map behaves as a bounded map that loses no capacity",
  "For every sequence of operations the map agrees with an ordinary map: lookups return the last inserted value, erase reports presence, the size is the number of keys, and iteration visits every key exactly once with its value. An insert of a new key fails exactly when the map already holds its full capacity, and then changes nothing; overwriting always succeeds; erasing makes room again, for ever, and clearing restores the full capacity. Bulk operations equal the sequence of single ones and report whether all succeeded.",
  ["histories", "configurations"], "every operation sequence, key set (with any bucket collisions), capacity and bucket count",
  "The map is not compiled by any test; slot leaks and chain corruption need long insert/erase histories on colliding keys at capacity.",
  ["coda/shm_hash_map.tcc", "coda/shm_hash_map.hpp", "coda/shm_pool.tcc", "coda/shm_stack.tcc"],
  [("chained buckets by index", "coda/shm_hash_map.tcc: unprotected_insert, unprotected_erase, unprotected_read"), ("slot allocation and free list", "coda/shm_pool.tcc, coda/shm_stack.tcc"), ("iteration", "coda/shm_hash_map.hpp: const_iterator")],
  observe=["results of public operations, iteration, size"])

p("C19", "Connecting to and leaving a shared map is safe in every order and at first use",
  "All processes that connect through the same key file share one map whose contents outlive any one of them; disconnecting really releases the memory mapping, and connecting again sees the contents. Connecting with a different value size, capacity or bucket count fails with an exception, changes nothing, leaves no lock held, and the object can be connected again afterwards. Processes that create the map concurrently all end up on one correctly initialised map, with no lock state lost. Connecting an object that is already connected fails with an exception.",
  ["schedules", "histories", "fault_sequences"], "every order of connect/disconnect, every mismatch, every failing system call, and every interleaving of first connections",
  "No test connects a map; the failures are in error paths and in the window between creating and initialising the kernel objects.",
  ["coda/shm_hash_map.tcc"],
  [("creation and initialisation", "coda/shm_hash_map.tcc: connect, connect_sem, connect_shm, attach"), ("release", "coda/shm_hash_map.tcc: disconnect, detach")],
  observe=["exceptions, attach counts and semaphore values of the kernel objects, map contents"])

p("C20", "A process killed while using a shared map harms nobody else",
  "If a process is killed at any instant of a map operation, every other process can go on: no lock stays held. All entries the killed operation was not modifying keep their values, the key it was modifying can be read, inserted and erased normally afterwards, iteration still ends and shows each key once, and at most the one slot in use by the killed operation is lost (a killed clear may lose more, until the next clear). A key being inserted is complete or absent, a key being erased keeps its old value or is absent. A process killed while connecting, first connections included, leaves a map others can connect to.",
  ["crash_points"], "every instruction of insert, overwrite, erase, bulk, read, iteration, clear and connect as the point of death",
  "A test cannot place a kill between two particular instructions of another process; none tries.",
  ["coda/shm_hash_map.tcc", "coda/shm_pool.tcc", "coda/shm_stack.tcc"],
  [("kernel undo of lock operations", "coda/shm_hash_map.tcc: SEM_UNDO in lock/unlock"), ("order of writes when linking, unlinking and freeing slots", "coda/shm_hash_map.tcc: unprotected_insert, unprotected_erase, clear; coda/shm_pool.tcc; coda/shm_stack.tcc: push")],
  observe=["survivor's operations after the kill"])

p("C21", "A shared queue delivers every flushed box exactly once, in order",
  "Records put by writers arrive at readers intact, grouped in the boxes they were flushed in, each box exactly once and in the order of flushing, also with several writing and reading processes. A box is discarded only when the ring is full (capacity minus one boxes unread), a read on an empty queue fails within its timeout, and a record too big for a box is refused without damaging others (whether the current box is flushed on that occasion is not specified). The shared registers hold the last value stored and the reported number of boxes equals the boxes flushed and not yet taken.",
  ["schedules", "histories", "configurations"], "every interleaving of writers and readers, every sequence of put/flush/take/get, box size and ring size",
  "The queue is not compiled by any test; wrap-around, full-ring and multi-process orderings need long concurrent histories.",
  ["coda/shm_queue.hpp", "coda/shm_queue.tcc"],
  [("ring indices under a semaphore lock", "coda/shm_queue.tcc: flush, unflush, lock_queue"), ("record packing", "coda/shm_queue.tcc: box::put, box::get, queue::put")],
  state=[("ring positions", "next box to read and to write", "coda/shm_queue.hpp: queue_info start, end")],
  observe=["records sent and received with unique ids, box counts"])

p("C22", "Queue locking survives failed connects, signals and killed processes",
  "A failed connect (wrong geometry, missing key file, kernel refusal) raises an exception, never crashes, leaves no lock held, does not disturb connected processes, and the same object can be connected correctly afterwards. A signal arriving in any queue operation never breaks mutual exclusion, and a process killed inside an operation never blocks the others and affects at most the one box it was moving, which arrives whole or not at all. Processes connecting for the first time concurrently share one correctly initialised queue.",
  ["fault_sequences", "crash_points", "schedules"], "every failing step of connecting, every moment of signal delivery or death, every interleaving of first connections",
  "No test exercises the queue, its error paths, signals or process death.",
  ["coda/shm_queue.tcc"],
  [("lock acquisition and release", "coda/shm_queue.tcc: lock_queue, unlock_queue"), ("connection steps", "coda/shm_queue.tcc: connect, connect_sem, connect_shm")],
  observe=["exceptions, semaphore values, progress of the other processes, box integrity"])

p("C23", "The in-process queue hands over each element once, in order, race-free",
  "Every element added is taken exactly once, in the order of adding (single gets and batch gets alike, a batch taking at most the requested number), whatever the number of adding and taking threads, and without data races. A non-waiting get on an empty queue fails at once; a waiting get blocks until an element or a wake-up signal arrives, and an added element never stays in the queue while a getter remains blocked. The reported size is the number of elements added and not yet taken.",
  ["schedules", "histories"], "every interleaving of adders, single and batch getters, signallers and size queries",
  "The queue is not compiled by any test; lost wake-ups, duplicates and races depend on thread schedules.",
  ["coda/synque.hpp"],
  [("mutex-protected deque with condition variable", "coda/synque.hpp: add, signal, get, size")],
  observe=["elements with unique ids per thread, blocked getters, race detector reports"])

p("C24", "Concurrent logging never tears, loses or duplicates lines, even on rotation",
  "Lines logged concurrently by any number of threads, and by several processes appending to the same file, each appear exactly once, whole and unmixed, in the log file, and in program order per thread. Rotating the log (rename, then re-create) while threads log loses, repeats or splits no line: each is in the old or the new file. Re-creating the log appends to an existing file and never truncates it.",
  ["schedules", "histories"], "every interleaving of logging threads and processes with rotations",
  "No test logs anything; tearing and loss need concurrent writers around the moment of rotation.",
  ["coda/logger.h", "coda/logger.c", "coda/system.c"],
  [("one formatted write per line", "coda/logger.h: log_fmt"), ("atomic descriptor replacement, append mode", "coda/logger.c: log_create; coda/system.c: coda_fdopen, coda_fdmove")],
  observe=["contents of all log files against the lines issued"])

p("C25", "Log filtering, line format and log switching do what they say",
  "A message is written exactly when its level is at most the current one (informational by default), as one line: local date and time with milliseconds, level name, thread name or numeric id, message; the forms that report an error code add the code and its text in brackets, and then return the code or end the process as their name says. Thread names are per thread, and level names map to their levels by their distinguishing letters in any case, anything else to informational. Opening a log creates missing directories, directs standard error to the file, sets the level and leaves the path argument unmodified; a failed opening changes neither the log destination nor the level and leaks nothing.",
  ["inputs", "histories", "fault_sequences"], "every level pair, message, thread naming, level name and sequence of successful and failing log openings",
  "No test uses the logger.",
  ["coda/logger.h", "coda/logger.c", "coda/system.c"],
  [("level filter and format", "coda/logger.h: log_fmt, LOG_FORMAT"), ("level names", "coda/logger.c: log_levels"), ("opening", "coda/logger.c: log_create")],
  observe=["log file contents, descriptor table, log level"])

p("C26", "Signals set exactly their own flag and stray signals are harmless",
  "After signal initialisation, hang-up raises only the reconfigure flag, interrupt and terminate only the terminate flag, the two user signals only the rotate-log and change-binary flags, and the other handled signals raise none and do not stop or kill the process; each one delivered is noted by one whole log line, subject to the log level. The restarting form lets interrupted blocking calls continue, the non-restarting form makes them fail with EINTR. Masking blocks or unblocks exactly the handled signals named in the mask, and a signal may arrive at any moment without disturbing the interrupted code.",
  ["histories", "schedules"], "every sequence of signals, masks and initialisation forms, at any moment of delivery",
  NOTEST + "wrong flags, dispositions or restart behaviour show only when a live process is signalled.",
  ["coda/daemon.c", "coda/daemon.h"],
  [("signal table and handler", "coda/daemon.c: CODA_SIG_LIST, coda_signal_handle"), ("installation and masking", "coda/daemon.c: coda_signal_init, coda_signal_init_norestart, coda_signal_mask")],
  observe=["the four flags, process status, results of blocking calls, signal mask"])

p("C27", "A pid file admits at most one live owner and always names it",
  "Of any number of processes racing to take the same pid file exactly one succeeds, and the file then holds that process's id as a decimal line until the owner removes it; the others fail and leave the file as it was. After removal, or over an empty file left by a crash, the next attempt succeeds. No attempt leaks a descriptor or leaves a lock behind, whichever step fails.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of competing processes and removals, death of a competitor at any step, every failing system call",
  NOTEST + "the race was fixed once already (changelog 0.1.9) and only shows under particular interleavings.",
  ["coda/system.c", "coda/daemon.c"],
  [("lock, check, write under one lock", "coda/system.c: coda_mkpidf"), ("removal", "coda/daemon.c: coda_daemon_stop")],
  observe=["return codes, file contents, descriptor and lock tables"])

p("C28", "File helpers create, redirect and map files without leaks or side effects",
  "Creating a path makes exactly the missing parent directories of it, tolerates existing ones, restores its argument, and fails without side effects beyond directories when a component cannot be created. Opening onto a given descriptor number replaces that descriptor with the new file (or returns a fresh one when the number is negative) and on failure leaves it as it was; no call leaks descriptors. Mapping a file exposes exactly its contents and size (or resizes it when asked), anonymous mapping gives zeroed memory, and failures report -1.",
  ["inputs", "fault_sequences"], "every path shape, descriptor number, mapping mode and failing system call",
  NOTEST + "leaks and error paths are invisible to example-based tests.",
  ["coda/system.c", "coda/system.h"],
  [("directory creation", "coda/system.c: coda_mkpath"), ("descriptor replacement", "coda/system.c: coda_fdopen, coda_fdmove"), ("mapping", "coda/system.c: coda_mmap")],
  observe=["file tree, descriptor table, mapped bytes"])

p("C29", "Calendar conversion is exact for every non-negative time",
  "Converting any non-negative number of seconds since 1970 gives the correct Gregorian UTC second, minute, hour, day of month, month (1 to 12), full year and weekday (Sunday 0).",
  ["inputs"], "every non-negative time value",
  NOTEST + "the arithmetic works by empirical formulas whose errors would be confined to particular days around leap days and century years.",
  ["coda/gmtime.h"],
  [("Gauss calendar formulas", "coda/gmtime.h: coda_gmtime")],
  observe=["fields of the result"])

p("C30", "Vietnamese tone removal maps exactly the accented letters to base letters",
  "For valid UTF-8 text each precomposed Vietnamese letter (and eth) becomes its ASCII base letter of the same case, combining diacritical marks U+0300 to U+036F disappear, and every other character is kept unchanged; the result is valid UTF-8 and a second pass changes nothing. For any bytes at all, including a character cut off at the end, only the given length is read, the output is never longer than the input, and a cut-off final character is kept as it is.",
  ["inputs"], "every Unicode character in every context, and every byte string",
  NOTEST + "the mapping is a hand-written list of 136 code points and a hand-written decoder.",
  ["coda/vietnam.cpp", "coda/vietnam.hpp"],
  [("decoder and letter table", "coda/vietnam.cpp: coda_remove_tones_utf8")],
  observe=["output string"])

p("C31", "IPv4 parsing is strict and socket helpers honour their options",
  "Parsing an IPv4 address of a given length accepts exactly four dot-separated decimal numbers from 0 to 255 and returns that address in network order; any other text gives the 'none' value. Listening, connecting and accepting give working connected sockets with the requested blocking mode and the peer's address, a receive timeout makes a silent receive fail after about that time (one second and more included), sending to a closed peer fails without killing the process. A failing helper returns -1 and leaks no descriptor.",
  ["inputs", "fault_sequences"], "every text, blocking mode, timeout, and failing system call",
  NOTEST + "octet overflow, descriptor leaks on error paths and option handling need sweeps and fault injection.",
  ["coda/socket.h"],
  [("address parser", "coda/socket.h: coda_inet_addr"), ("socket set-up", "coda/socket.h: coda_listen, coda_connect, coda_accept, coda_set_*, coda_unix_*")],
  observe=["return values, sockets on the loopback interface, descriptor table"])

p("C32", "Random strings have the requested length and use the whole alphabet",
  "A random string has exactly the requested length and every character comes from the given alphabet (only the given number of its characters), each of them occurring about equally often. Different processes, each drawing its first string after it was started, get different sequences, and generating many strings leaks no descriptor.",
  ["inputs"], "every length and alphabet size",
  NOTEST + "membership and uniformity are statistical statements over many draws and processes.",
  ["coda/string.cpp", "coda/random.c", "coda/random.h"],
  [("seeding from the system", "coda/random.c: coda_random_init"), ("selection", "coda/string.cpp: coda_random_string")],
  observe=["generated strings, descriptor table"])

p("C33", "Logarithmic buckets select by the magnitude of the value",
  "A logarithmic array starts with all numeric elements zero, and looking up by a positive value selects the element whose index is the position of the value's highest set bit, or the last element for larger values; no value selects memory outside the array. Index access reaches the same elements, and swapping exchanges the full contents of two arrays.",
  ["inputs", "configurations"], "every positive value, array size and element type",
  NOTEST + "bucket boundaries are at every power of two and every array size.",
  ["coda/log_array.hpp"],
  [("bucket index", "coda/log_array.hpp: get_by_value"), ("initialisation and swap", "coda/log_array.hpp: log_array_value_holder, swap")],
  observe=["addresses and values of elements"])

p("C34", "Error objects carry the full message, bounded, with the system error text",
  "An error built from a format holds exactly the formatted text, cut to fit its fixed buffer and always terminated, however long the arguments; the system-error form appends the code and the system's text for it. Copies carry the same text, and building errors concurrently in several threads is safe.",
  ["inputs", "schedules"], "every format, argument length, error code and concurrent use",
  "Only error-free paths run in the tests; no error object is ever constructed.",
  ["coda/error.hpp", "coda/error.h"],
  [("bounded formatting", "coda/error.hpp: coda_error"), ("system error text", "coda/error.h: coda_strerror_r, coda_strerror")],
  observe=["what() text"])

p("C35", "Daemon start-up parses options faithfully and detaches completely",
  "Parsing a command line sets exactly the options given (configuration file, pid file, daemon on/off with the last one winning, short and long forms, in any order) and reports unknown or incomplete options as an error. Starting as a daemon ends the original process successfully while the new one leads its own session with standard input and output on the null device, standard error kept, file-mode mask cleared, signals initialised and its own id in the pid file. Starting with a pid file that is already owned fails, and stopping removes the pid file.",
  ["inputs", "histories"], "every option sequence and every start/stop history",
  NOTEST + "detachment can only be observed from outside on live processes.",
  ["coda/daemon.c", "coda/daemon.h"],
  [("option table", "coda/daemon.c: coda_getopt_parse"), ("fork, session, redirection", "coda/daemon.c: coda_daemon_fork"), ("start and stop order", "coda/daemon.c: coda_daemon_load, coda_daemon_stop")],
  observe=["parsed options, process attributes, pid file"])

p("C36", "A shared pool or stack gives each slot to one owner until it is given back",
  "A pool of N objects in shared memory, used under one lock through any number of attached objects and addresses, allocates exactly while fewer than N objects are allocated, each time an index below N that is not in use, and says so when all are; freeing makes the object available again, clearing makes all available, and the number of allocated objects is always exact. A stack of N elements returns them last in, first out, and refuses exactly the pushes beyond N. Attaching keeps what is there whoever attached before, attaching to memory of another capacity or element size is refused without changing it, and no operation touches the objects' contents or memory beyond the sizes it asks for.",
  ["inputs", "histories"], "every history of allocations, frees, clears and attachments of every capacity and element size",
  NOTEST + "slots lost, handed out twice or written outside show only after particular sequences of frees and attachments.",
  ["coda/shm_pool.hpp", "coda/shm_pool.tcc", "coda/shm_stack.hpp", "coda/shm_stack.tcc"],
  [("allocation and free list", "coda/shm_pool.tcc: allocate, free, clear, allocated_objects"), ("stack", "coda/shm_stack.tcc: push, pop, used, clear"), ("attachment and geometry", "coda/shm_pool.tcc: attach; coda/shm_stack.tcc: attach")],
  observe=["indexes returned, contents, sizes, memory around"])

p("C37", "Millisecond sleeps last as long as asked and end early only for a signal",
  "Sleeping for any number of milliseconds, from none to the largest integer, suspends the caller for at least that long, not noticeably longer, and returns zero. When a signal handler runs meanwhile the sleep ends at once, returning -1 with EINTR.",
  ["inputs", "schedules"], "every number of milliseconds and every moment of a signal",
  NOTEST + "only the split into seconds and nanoseconds of large or boundary values, and interrupted sleeps, go wrong.",
  ["coda/gmtime.h"],
  [("split into seconds and nanoseconds", "coda/gmtime.h: coda_msleep")],
  observe=["time asked of the kernel, time slept, result and errno"])

p("C38", "Running out of memory and throwing copies are reported and break nothing",
  "When an allocation fails, or a copy of an element or a callback throws, at any point of an operation on a cache, a synchronised queue, a string storage, a url, an XML object, a shared queue being connected, or of a function that makes or extends strings, sets and maps, the operation either gives its full result or reports the failure (by throwing, the caller's own exceptions arriving as they are, or by the failure value it returns for other failures). It does not crash, leaks neither memory nor descriptors nor mappings, leaves no lock held, and leaves the objects with their previous contents, except that the one value being written may have its new contents, or be missing or empty: nothing else is lost, doubled, reordered, invented or miscounted. Tried again, the operation works as ever.",
  ["inputs", "fault_sequences", "histories"], "every failing allocation, throwing copy or throwing callback, alone or with all later ones, at every point of every operation in every state",
  "No test makes an allocation fail or a copy throw.",
  ["coda/cache.tcc", "coda/synque.hpp", "coda/stringstorage.c", "coda/url_parser.cpp", "coda/txml.cpp", "coda/string.cpp", "coda/url.cpp", "coda/shm_queue.tcc", "coda/logger.c"],
  [("insertion and accounting around the copied value", "coda/cache.tcc: set"), ("locked sections that copy elements", "coda/synque.hpp: add, get"), ("growing arrays and blocks", "coda/stringstorage.c: internal_find_add"),
   ("allocation of url texts", "coda/url_parser.cpp: copy constructor, operator=, create_*"), ("callbacks called by expat", "coda/txml.cpp"), ("temporary buffers", "coda/string.cpp: coda_strnappend, coda_strnprintf"), ("the private box", "coda/shm_queue.tcc: connect")],
  observe=["results, exceptions, contents, locks, mappings, descriptors and heap balance after each fault"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
