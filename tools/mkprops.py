#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p("C01", "Varint encode/decode is the identity for every value and width",
  "For each of the six varint widths (u16, i16, u32, i32, u64, i64) and every value of that width, decoding what the encoder wrote succeeds, gives back exactly the value and reports exactly the number of bytes the encoder reported. This holds whatever bytes follow the encoding in the source buffer and also when the source is exactly as long as the encoding.",
  ["inputs"], "every value of every width; every content and length of what follows the encoding",
  "The tests try a dozen values per width, always followed by zero bytes; 2^64 values and arbitrary trailing bytes are out of their reach.",
  ["src/varint.c", "include/futils/varint.h"],
  [("7-bit group loop, zigzag", "src/varint.c")], ["futils_varint_write_* then futils_varint_read_*"])
p("C02", "Varint decoding of arbitrary bytes stays in bounds and is exact",
  "For every byte string and stated length, each varint decoder reads only bytes inside the stated length; it succeeds exactly when the bytes start with a terminated varint whose value fits the width and which is at most the maximum encoded length of that width (3, 5 or 10 bytes), and then returns the value that the 7-bit groups denote (zigzag for signed widths) and the number of bytes consumed. A truncated, over-long or out-of-range encoding, or a missing argument, is rejected with a negative errno and never with a value reported as success.",
  ["inputs"], "every source buffer content, every source length including 0 and truncations",
  "The tests decode only encodings produced by hand from valid values; no test passes a truncated, over-long or hostile byte string at an exact buffer bound.",
  ["src/varint.c", "include/futils/varint.h"], [("bounds and last-byte check in the decode loop", "src/varint.c:futils_varint_read")],
  ["return value, *val, *val_len of futils_varint_read_*"])
p("C03", "Varint encoding writes the canonical bytes and nothing else",
  "For every value, each varint encoder given a destination of at least the maximum encoded length writes the shortest little-endian base-128 encoding of the value (zigzag for signed widths), reports its length, and leaves every byte after that length unchanged. Given a shorter destination or a missing argument it returns an error and writes nothing.",
  ["inputs"], "every value of every width, every destination length, every prior destination content",
  "The tests compare a dozen encodings; they do not look at untouched bytes nor at all destination lengths.",
  ["src/varint.c"], [("encode loop, dst_len check", "src/varint.c:futils_varint_write")], ["dst bytes, *val_len, return value"])
p("C04", "List operations keep a well-formed ring holding exactly the right nodes",
  "Starting from any well-formed list of any length, every list operation (insert before/after, push, delete, delete-and-init, replace, move, pop) leaves a well-formed circular doubly linked list whose node sequence is exactly the old one with the documented edit applied. No node outside those named by the operation and their neighbours is modified, a node removed by delete or pop reads as unreferenced, and a node removed by delete-and-init or replace-and-init is left as a valid empty list.",
  ["inputs", "histories"], "every well-formed list (any length, any position), hence by induction every history of operations",
  "The tests exercise lists of a few nodes in fixed orders; edge positions (single node, adjacent nodes, head itself) and unbounded lengths are not covered.",
  ["include/futils/list.h"], [("pointer updates in the inline list functions", "include/futils/list.h")], ["next/prev links of every node", "FIFO order of push/pop"])
p("C05", "List queries and walks visit every element exactly once, in order",
  "For every well-formed list of any length, the emptiness, first, last, next, previous, is-last and length queries return the values of the abstract sequence, and forward and backward walks visit every element exactly once in order. The safe walks keep this guarantee when the body removes and frees the element being visited.",
  ["inputs"], "every well-formed list of any length, walks with and without removal of the current element",
  "The tests walk lists of at most ten elements.",
  ["include/futils/list.h"], [("list_length and the walk macros", "include/futils/list.h")], ["values returned and elements visited"])
p("C06", "A hash table behaves as a map under every history",
  "After any history of insertions, removals and remove-all, looking a key up returns the data most recently inserted under that key and still present, and not-found otherwise, for any number of colliding keys; constant data is returned by the constant lookup and refused by the mutable one. Inserting a key already present fails and changes nothing; removing an absent key fails and changes nothing; failed operations never affect other keys.",
  ["histories", "inputs"], "every sequence of operations, every key, every table size, every collision pattern",
  "There is no hash test at all in the suite; collisions, duplicates and long histories are untested.",
  ["src/hash.c", "include/futils/hash.h"], [("per-bucket chains, duplicate search before insert", "src/hash.c")],
  ["hash_lookup/hash_insert/hash_remove results"], [("buckets", "chain per hash value", "struct hash"), ("entries", "all entries", "struct hash")])
p("C07", "Hash tables own and release entries exactly once and survive failures",
  "Every stored entry is listed exactly once when the table's entries are enumerated, in insertion order, and the user's release callback runs exactly once for each entry removed by remove, remove-all or destroy, and for no other. Initialising picks a bucket array that every key index stays inside, for every requested size; failure to allocate memory is reported, leaves nothing allocated by init and leaves the table as it was in insert, and destroy releases all memory the table allocated.",
  ["histories", "fault_sequences", "inputs"], "every history, every requested size, every allocation failure point",
  "No test exercises the hash table, and allocation failures cannot be produced by ordinary tests.",
  ["src/hash.c", "include/futils/hash.h"], [("entry allocation/free, prime bucket count", "src/hash.c")],
  ["hfree callback log, entries enumeration, heap balance"])
p("C08", "Timespec compare, difference and add are exact and normalised",
  "For all normalised timestamps in range, comparison is the order of the instants, the difference is exactly end minus start (rejected when negative) and adding a signed delta gives exactly the shifted instant; every produced timestamp is normalised (0 <= nanoseconds < 10^9). The microsecond difference reports the absolute distance and its sign, and the range test reports the exact distance and whether it is below the range (equal instants always are).",
  ["inputs"], "every pair of normalised timestamps, every 64-bit delta that does not overflow the result",
  "The tests compare fewer than twenty hand-picked pairs, and are not part of the offline build.",
  ["src/timetools.c", "include/futils/timetools.h"], [("borrow/carry handling", "src/timetools.c")], ["outputs of time_timespec_*"])
p("C09", "Time unit conversions are exact and mutually inverse",
  "For every representable value, converting a timestamp to nanoseconds, microseconds or milliseconds gives the mathematically truncated count, converting a count to a timestamp gives a normalised timestamp of exactly that instant, and count to timestamp to count is the identity. Timeval conversions follow the same rule, and a missing argument is rejected without writing.",
  ["inputs"], "every 64-bit count, every normalised timestamp whose count fits",
  "Tests convert a handful of values.",
  ["src/timetools.c", "include/futils/timetools.h"], [("division/modulo by unit", "src/timetools.c")], ["outputs of the conversion functions"])
p("C10", "Monotonic to real time conversion applies the measured clock offset",
  "Whatever the clocks return, converting a monotonic instant to real time yields that instant plus the offset between the real-time reading and the rounded midpoint of the two monotonic readings taken around it; equal monotonic inputs give real-time outputs differing only by the clock readings, and differences between inputs are preserved exactly. The millisecond form is the microsecond form rounded to nearest, and a failed clock reading is reported as an error without writing a result.",
  ["inputs", "fault_sequences"], "every clock reading triple (before, realtime, after), every monotonic input, failures of each reading",
  "A test runs with whatever the clocks happen to return and cannot compare against an exact expected value or inject clock failures.",
  ["src/timetools.c"], [("mt/rt/mt bracketed measurement", "src/timetools.c")], ["result for given clock readings"])
p("C11", "Calendar conversion is the exact proleptic Gregorian bijection",
  "For every UTC calendar date and time from year 1900 on and every offset, converting calendar fields to an epoch value gives the Gregorian day count times 86400 plus the time of day (minus the offset for the UTC epoch), and converting an epoch and offset to calendar fields and back returns the same epoch and offset. Leap years, century years and offsets that cross a day, month or year boundary are included.",
  ["inputs"], "every date of the supported range, every time of day, every offset",
  "Tests check a few dates.",
  ["src/systimetools.c"], [("days-from-civil formula with cumulative month table", "src/systimetools.c")], ["time_local_from_tm/time_local_to_tm results"])
p("C12", "Formatting then parsing a local time is the identity in all three formats",
  "For every epoch whose local year lies in 1970 to 9999 and every whole-minute UTC offset in the formats' range (whole minutes within +/- 15 h), formatting succeeds in a large enough buffer and parsing the text gives back the same epoch and offset, for the ISO 8601 long, ISO 8601 short and RFC 1123 formats. The text itself is the standard rendering of that local time.",
  ["inputs"], "every epoch second, every offset, three formats",
  "Tests format two or three dates.",
  ["src/systimetools.c", "include/futils/systimetools.h"], [("snprintf formats and hand-written parsers", "src/systimetools.c")], ["formatted text, parsed epoch and offset"])
p("C13", "Date and time parsing never misreads or overruns any text",
  "For every NUL-terminated text, parsing terminates, reads only inside the text and its own tables, and either rejects it with an error or returns the epoch and offset that the text denotes (year, month, day, hour, minute, second and offset as written; day and time fields beyond their usual range count on linearly). Texts with a month outside 1 to 12, a negative or missing field or trailing garbage are never accepted as some other instant.",
  ["inputs"], "every NUL-terminated string of any length",
  "Tests parse about a dozen well-formed strings.",
  ["src/systimetools.c"], [("field parsers", "src/systimetools.c")], ["return value, epoch, offset of time_local_parse"])
p("C14", "The time context reports a date/time only when both halves are present",
  "For every order and repetition of date and time settings on a time context, a setting of a half already present is refused and changes nothing, the result is available exactly when both halves have been given, and it is then the instant and offset those two texts denote. A reset returns the context to its initial state.",
  ["histories", "inputs"], "every sequence of set-date/set-time/reset/get operations with valid and invalid texts",
  "Tests use the fixed order date then time.",
  ["src/systimetools.c"], [("field bits of the context", "src/systimetools.c")], ["return codes and results of time_ctx_set_*, time_ctx_get_local"])
p("C34", "The system clock is read and set as one coherent instant",
  "Setting the local time sets the system clock exactly once, to exactly the requested second with no sub-second part, and reports the error of the system call. Getting it returns the second and the millisecond of one and the same reading of the clock (the millisecond is below 1000 and truncated, never rounded into the next second), and the offset, in seconds, that the local time zone has now; outputs that are not requested are not needed. A request for neither the second nor the offset is rejected, and when the clock cannot be read the error is reported and no output is stored.",
  ["inputs", "fault_sequences"], "every requested second, every reading of the clock, every combination of requested outputs, every failing clock call",
  "No test may set the clock, and a test reads the clock at one arbitrary instant: readings just before a second boundary and failing clock calls are out of reach.",
  ["src/systimetools.c", "include/futils/systimetools.h"], [("settimeofday and gettimeofday calls, division to milliseconds", "src/systimetools.c:time_local_set, time_local_ms_get")],
  ["arguments of the clock calls, return value, *epoch_sec, *ms, *utc_offset_sec"])
p("C15", "Bounded random integers and random reals lie exactly in range and are unbiased",
  "For every maximum and every underlying random stream, each bounded generator (16, 32, 64 bits) returns a value between 0 and the maximum inclusive, obtained by rejecting masked random words so that every value in range corresponds to the same number of random words. Random floats and doubles lie in [0, 1) and are exact multiples of 2^-24 and 2^-53 covering the whole grid.",
  ["inputs"], "every maximum of each width, every content of the random pool",
  "Statistical tests on a few maxima cannot establish the absence of bias or of a single out-of-range output.",
  ["src/random.c", "include/futils/random.h"], [("power-of-two mask and rejection loop", "src/random.c")], ["value returned for a given pool content"])
p("C16", "Random strings have the promised length, alphabet and termination",
  "For every requested buffer size, length and character set, the random string, base16, base32 and base64 generators write at most the buffer size including a terminating NUL, never touch memory beyond it, produce only characters of the alphabet (with correct padding for base32 and base64) and return the full length as documented. Each output symbol is produced from its own independent random bits, so that the text decodes to the requested number of fully random bytes.",
  ["inputs"], "every buffer size, every blob length, every character set length, every random stream",
  "Tests check a few lengths and cannot see that bits of one symbol are reused in another.",
  ["src/random.c"], [("per-block encoders and tail handling", "src/random.c")], ["bytes written, return value"])
p("C17", "Random bytes fill exactly the request and are never handed out twice",
  "For every length, the random byte generator fills exactly the requested bytes and nothing else, taking them from a ChaCha20 key stream; bytes handed out are erased from the pool, the key that produced them is replaced before more output is produced, and no byte of generator output is ever returned by two requests or reused as key material. The refill and the bounded availability counter keep every access inside the pool for any sequence of request sizes.",
  ["histories", "inputs"], "every request length and every sequence of requests (every pool fill level)",
  "Tests draw a few buffers and check statistics; they cannot see key or byte reuse, nor all fill levels of the pool.",
  ["src/random.c"], [("pool with fast key erasure", "src/random.c")], ["output bytes relative to the ChaCha20 key stream, memory of the pool"],
  [("available", "unconsumed bytes in the pool", "struct pool")])
p("C18", "Shuffle always yields a permutation",
  "For every array length, element size and random stream, shuffling leaves the array a permutation of its former content with every element intact, touches nothing outside the array, and every permutation is reachable with index draws that are in range. A failed allocation is reported and leaves the array unchanged.",
  ["inputs", "fault_sequences"], "every element count and size, every random stream, allocation failure",
  "Tests shuffle a few arrays of fixed size.",
  ["src/random.c"], [("Fisher-Yates swap loop", "src/random.c")], ["array content after random_shuffle"])
p("C19", "Seeding consumes a full seed from the system and propagates reseeding",
  "Whatever mix of interruptions, short reads and failures the system's random sources produce, seeding either uses a key filled entirely with bytes obtained from the system or fails/falls back to the next source; a partially filled or constant key is never used. A request for strong bytes is answered in full or fails, and only from sources that wait until the system's generator is ready. A reseed request makes every thread's generator take a fresh seed before its next output.",
  ["fault_sequences", "histories"], "every sequence of short reads, EINTR and errors from getrandom, open and read; every interleaving of reseed and draws",
  "The tests run with a kernel that always answers in full.",
  ["src/random.c"], [("fetch loop, era counter", "src/random.c")], ["seed bytes vs. bytes delivered by the system"])
p("C20", "The mailbox delivers whole messages once, in order, or reports why not",
  "Every message accepted by push is later returned by peek whole, once and in push order, for every message size allowed; push to a full box and peek on an empty one report would-block without effect, and interrupted system calls are retried. Creating a box rejects sizes outside 1 to PIPE_BUF-1, sets close-on-exec and non-blocking on both ends, and releases everything on failure and on destroy.",
  ["histories", "fault_sequences", "inputs"], "every history of push and peek, every message size, every sequence of EINTR and short/failed system calls",
  "Tests push a few messages and never see interrupted or failing system calls.",
  ["src/mbox.c", "include/futils/mbox.h"], [("atomic pipe writes below PIPE_BUF", "src/mbox.c")], ["sequence of messages out vs. in"])
p("C21", "The dynamic mailbox is a bounded FIFO of intact variable-size messages",
  "For every history of pushes and peeks, peek returns exactly the messages accepted by push, in order, with their exact size and content, including messages that wrap around the end of the ring, and a push is refused with would-block exactly when header plus payload does not fit in the free space. Refused pushes, peeks on an empty box and messages above the box's maximum size change nothing, and no access leaves the ring or the caller's buffers.",
  ["histories", "inputs"], "every ring position, fill level, message size and content, hence every history",
  "Tests fill the ring a few times with fixed message sizes.",
  ["src/dynmbox.c", "include/futils/dynmbox.h"], [("ring indices and free space computation", "src/dynmbox.c")], ["messages out vs. in"],
  [("read_pos/write_pos/free_space", "ring state", "struct dynmbox")])
p("C22", "The dynamic mailbox descriptor is readable exactly while messages are queued",
  "At every moment when no call is executing, and in every interleaving of any number of pushing and peeking threads, the number of unread notification bytes equals the number of queued messages, so the polled descriptor is readable exactly when a peek would succeed. Ring state is only accessed with the lock held, every path releases the lock, and space freed by a peek wakes a blocked pusher. Both ends of the notification pipe are non-blocking and close-on-exec; failed creation and destruction release everything.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of push, blocking push and peek by any number of threads",
  "Tests run one or two threads for a few operations and cannot force the window between unlock and notify.",
  ["src/dynmbox.c"], [("mutex, condition variable and notification pipe", "src/dynmbox.c")], ["bytes in the notification pipe vs. queued messages at every lock release"])
p("C23", "A saved file is replaced atomically or not at all, at every crash point",
  "At every point between two file operations of opening, writing, committing or rolling back, in every combination of file-system call failures, the target file (as recovered by the file check when check data is used, starting from no or from a valid payload and check file, whatever temporary files are left over) holds either the complete old or the complete new content, even if storage lost everything not yet flushed, and a commit that reports success has been flushed to storage before it replaces the old file. Any failed write, an unsuccessful flush, a read error while computing the check value or a rollback leaves the old content in place, is reported, and no temporary file stays behind.",
  ["crash_points", "fault_sequences"], "every crash point between file-system operations, every failing operation",
  "Tests never interrupt a commit and never inject a failing call.",
  ["src/safew.c", "include/futils/safew.h"], [("temporary file, fsync, rename", "src/safew.c")], ["target file content after crash and recovery"])
p("C24", "Recovery keeps the valid version the documented table names, crash safely",
  "For every combination of present, absent, incomplete and matching or mismatching payload, check and temporary files, the file check succeeds exactly when a payload matches its check file in a combination the documented recovery table accepts (an incomplete check file matches nothing), then leaves that payload (the newer one if both pairs match) with its check file under the final names and no temporary files, and otherwise reports failure and leaves none of the files. Interrupting the recovery at any point and running it again keeps the same version. Whatever file operation of the recovery fails, success is reported only with a payload and its matching check file under the final names, and every file is closed again. The check value is the hash of the whole payload, so any single changed byte is detected; names that do not fit are refused without touching any file.",
  ["crash_points", "inputs"], "every combination of the four files and their contents; every crash point during recovery, repeated",
  "Tests run each of the sixteen presence combinations once without interruption and with readable, well-formed check files.",
  ["src/safew.c"], [("recovery decision table", "src/safew.c")], ["files left after recovery"])
p("C25", "UTF-8 check and sanitising are exact for every text, set and size",
  "For every byte string, the UTF-8 check accepts exactly text that is well-formed, shorter than the byte limit (terminator included), within the character limit and free of the forbidden characters, and refuses anything else with a negative errno (too long: E2BIG, forbidden character: EPROTO). Sanitising refuses malformed text and destinations below two bytes; otherwise it replaces exactly the forbidden characters, keeps all others, stores the longest prefix of whole characters that fits, always NUL-terminates inside the given size, never writes beyond it, and returns the text's length in bytes. No path, including failing allocations, leaks memory or a converter.",
  ["inputs", "fault_sequences"], "every byte string, every limit, character set and destination size, every failing allocation",
  "Tests use a handful of strings.",
  ["src/string.c", "include/futils/string.h"], [("conversion, replacing and cutting", "src/string.c")], ["output text, return value"])
p("C26", "Directory size is the exact sum over the tree and never follows links",
  "For every directory tree, the reported size is the sum of the sizes of the regular files directly in the directory and, when recursive, in all sub-directories at any depth, each entry counted once; '.' and '..' are skipped, symbolic links are neither followed nor counted, and other kinds count nothing. Any failing call at any depth (opening or reading a directory, querying an entry, an allocation, an entry path that does not fit) is reported as a negative errno and never as a partial or wrong size, and every directory and allocation is released.",
  ["inputs", "fault_sequences"], "every directory tree, every path length, every failing call",
  "There is no test for it in the C suite, and fault injection is needed.",
  ["src/fs.c"], [("readdir/lstat walk and recursion", "src/fs.c")], ["returned size, open descriptors"])
p("C27", "Descriptor flag helpers change only the requested flags",
  "For every descriptor and flag state, setting close-on-exec or adding status flags turns on exactly the given flags and preserves all others, the close-on-exec query tells exactly whether that flag is set, and any failing system call is reported as a negative errno (as not set by the query). Setting a flag twice is the same as setting it once.",
  ["inputs", "fault_sequences"], "every previous flag word, every flag argument, failures of each call",
  "There is no test for these helpers.",
  ["src/fdutils.c"], [("F_GETFD/F_SETFD, F_GETFL/F_SETFL read-modify-write", "src/fdutils.c")], ["arguments of the final fcntl call, return value"])
p("C28", "Sync helpers succeed only if everything was flushed and leak nothing",
  "For every combination of failing open, sync and close steps, syncing a file, a folder or a file with its folder returns success only if every flush it promises succeeded on the right object, and a negative errno otherwise. No descriptor or memory is leaked on any path, and a missing path is rejected.",
  ["fault_sequences", "inputs"], "every failure combination of the underlying calls, every path",
  "There is no test for these helpers and no fault injection.",
  ["src/synctools.c"], [("open/fsync/close sequences", "src/synctools.c")], ["return value vs. calls that failed; descriptor balance"])
p("C29", "Inotify helper reports every event of a read once, in order, and leaks nothing",
  "For every batch of events the kernel returns, of any total size, with and without names, the callback runs once per event, in order, with the event's own data and the user's pointer, and nothing outside the batch is read; when querying, allocating or reading fails no callback runs. Temporary memory is always released after the last callback. Creating a watch either returns an inotify descriptor with the watch on the given path and mask added and close-on-exec set, or -1 with no descriptor left open, and destroying closes exactly a non-negative descriptor, once.",
  ["inputs", "fault_sequences"], "every batch of events and name lengths, every failing call",
  "There is no test for it.",
  ["src/inotify.c"], [("event walk by header + name length", "src/inotify.c")], ["callback invocations, descriptors"])
p("C30", "C++ string helpers are exact for all strings",
  "For all strings, including empty ones and ones with embedded NULs or bytes above 127, the prefix and suffix tests are true exactly when the text starts or ends with the given part. Lower-casing changes exactly the upper-case letters and preserves length.",
  ["inputs"], "every pair of strings",
  "Tests compare a few short pairs.",
  ["src/string.cpp", "include/futils/string.hpp"], [("compare-based prefix/suffix tests", "src/string.cpp")], ["returned booleans and strings"])
p("C31", "C++ path helpers split paths as POSIX does and leave the argument intact",
  "For every path, the directory-name and base-name helpers return what POSIX dirname and basename define, do not modify the argument, and leak no memory.",
  ["inputs"], "every path string",
  "Tests check three paths.",
  ["src/fs.cpp", "include/futils/fs.hpp"], [("strdup around dirname/basename", "src/fs.cpp")], ["returned strings"])
p("C32", "Min, max, bound and utility macros give exact results and evaluate once",
  "For all operands of one type, the minimum, maximum and bounding macros return the mathematically right operand, bounding with ordered limits always lies within the limits, each argument is evaluated exactly once, and the array-size and container-of helpers are exact for every layout.",
  ["inputs"], "every operand value, operands with side effects",
  "One test checks three bound values.",
  ["include/futils/futils.h"], [("statement-expression macros", "include/futils/futils.h")], ["macro results"])
p("C33", "Blocking pushes and sleeps honour their timeout exactly",
  "For every 32-bit timeout, a blocking push either delivers its message or gives up with a timeout error no earlier than the requested time and without losing or duplicating data, an endless timeout never gives up, and a millisecond sleep asks for exactly the requested duration. Deadlines are computed without overflow for every timeout; a timeout the underlying wait cannot express (above INT_MAX for the fixed-size mailbox) is refused up front as invalid.",
  ["inputs", "schedules", "fault_sequences"], "every 32-bit timeout, every sequence of wake-ups and interruptions",
  "Tests can only wait for a few milliseconds.",
  ["src/dynmbox.c", "src/mbox.c", "src/timetools.c"], [("deadline computation and wait loop", "src/dynmbox.c, src/mbox.c")], ["deadline passed to the wait, return value"])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    print(len(P))
