#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- concurrency
p("C01", "Work on one stored counter is never run concurrently",
  "Every operation that reads or changes the data of one stored counter (recording a sample, periodic and forced flush, query, deletion) runs on that counter's own serial queue, so two such operations on the same counter never overlap. The serial queue used for an operation is always the one that belongs to the counter the operation touches.",
  ["schedules"], "every interleaving of the daemon's worker threads, for every counter and every combination of ingest, query, flush and delete",
  "The unit tests drive one io_service on one thread and the functional tests are too short to hit two threads inside one counter.",
  ["daemon/StatStore.cpp", "daemon/RequestInFlight.cpp", "daemon/StatCounter.cpp"],
  [("posts through the counter's strand", "daemon/StatStore.cpp: record, flushOne, Deleter::go, Flusher::go"), ("query posts", "daemon/RequestInFlight.cpp: generateCounterData, MultiCounterWorker::go")],
  ["bucket files and query answers of a counter under concurrent load"])
p("C02", "Agent table, forward buffer and flush list are accessed under their locks",
  "The table of connected agents and the metadata of each agent, the buffer of samples waiting to be forwarded, and the list of pending agent flush requests are shared by all network threads. Each access to one of them happens while its own mutual-exclusion lock is held, for as long as references into it are in use.",
  ["schedules"], "every interleaving of ingest (TCP, UDP), HTTP agent listing, admin purge/flush and forward timer on any number of threads",
  "Tests run these handlers on one thread; a data race needs two threads inside the same table at the same moment.",
  ["daemon/StatServer.cpp", "daemon/StatServer.h"],
  [("metaMutex_ / forwardMutex_ / agentMutex_", "daemon/StatServer.cpp")], ["agent list over HTTP, forwarded sample stream"])
p("C03", "A connection's byte buffers are touched only under its lock",
  "The buffers holding bytes received and not yet consumed, and bytes waiting to be sent, of a network connection are read or changed only while that connection's lock is held. Removing received bytes or appending outgoing bytes is one uninterrupted step with respect to every other thread.",
  ["schedules"], "every interleaving of asynchronous read/write completions with threads that consume input, queue output, reconnect or close",
  "Unit tests use single-threaded fakes of the connection.",
  ["daemon/EagerConnection.cpp", "daemon/EagerConnection.h"], [("mutex_", "daemon/EagerConnection.cpp")], ["bytes seen by the peer"])
p("C04", "Creating, looking up and dropping counters is atomic",
  "Looking up a counter name and, if it is missing, creating and registering the counter is one atomic step: two threads recording to a new name always end up sharing one counter object, and each counter's files are opened once. The table of counters, the searchable key index and the replacement of a deleted counter are only read or changed under the synchronisation they belong to.",
  ["schedules"], "every interleaving of ingest to new names, queries, key refreshes and deletes",
  "A duplicate counter appears only when two threads miss the same name at the same moment, which tests do not schedule.",
  ["daemon/StatStore.cpp", "daemon/ShardedMap.h", "daemon/AllKeys.cpp", "daemon/AllKeys.h"],
  [("per-shard lock around find+insert", "daemon/StatStore.cpp openCounter"), ("compare-exchange / lock_ in key index", "daemon/AllKeys.cpp")])
p("C05", "Settings, blacklist, metrics, accept and log state is lock protected",
  "The open settings files and their key/value contents, the blacklist, the stored Prometheus metrics, the connection waiting to be accepted, the replica message queue, the multi-counter answer being assembled and the log output are shared between threads. Each access to one of them happens while the lock that owns it is held.",
  ["schedules"], "every interleaving of HTTP, admin, ingest, replica and timer handlers",
  "Tests touch each of these from one thread.",
  ["daemon/Settings.cpp", "daemon/Blacklist.cpp", "daemon/PromExporter.cpp", "daemon/EagerConnectionFactory.cpp", "daemon/ReplicaPdus.cpp", "lib/Log.cpp", "lib/LogInstanceFile.cpp"],
  [("lock_/mutex_ guards", "the listed files")])
p("C06", "The daemon cannot deadlock on its own locks or stall while holding one",
  "All locks are acquired in one consistent order, including through callbacks and signal handlers invoked while a lock is held, so no set of threads can wait for each other in a cycle. No thread sleeps or waits for the network (name resolution, blocking socket operation) while it holds a lock.",
  ["schedules"], "every pair of threads and every acquisition order reachable in the daemon",
  "A deadlock needs two threads in the two critical sections at once; tests never provoke that.",
  ["daemon/", "lib/"], [("lock acquisition sites", "all grab/lock_guard uses"), ("signal emissions under lock", "daemon/EagerConnection.cpp")])

# ---------------------------------------------------------------- request/response
p("R01", "Every HTTP request gets exactly one response",
  "Every request accepted by the HTTP and metrics servers is completed exactly once on every path, including error and exception paths: never zero times (the client would hang) and never twice. Work handed to other threads for a request (queries, settings access, multi-counter queries) completes it exactly once when the last part is done.",
  ["inputs", "fault_sequences"], "every method, URL, parameter combination, body and failure of store, settings or file access",
  "Tests sample a few URLs; the guarantee is about every control path of every handler.",
  ["daemon/RequestInFlight.cpp", "daemon/HttpServer.cpp", "daemon/main.cpp"],
  [("complete()/reportError()", "daemon/RequestInFlight.cpp"), ("error paths of header/body reading", "daemon/HttpServer.cpp")])
p("R02", "Every admin command gets exactly one final answer",
  "Every command line received on the admin port is answered by exactly one final status ('ok' or 'huh?...'), on every path, either directly or by the single completion it hands on to; 'quit' closes the connection instead.",
  ["inputs"], "every command word and argument list", "Tests send a handful of commands.",
  ["daemon/AdminServer.cpp", "daemon/DeleteCountersWorker.cpp", "daemon/DeletePatternsWorker.cpp"],
  [("cmdArgs dispatcher", "daemon/AdminServer.cpp")])
p("R03", "Accepted completion callbacks are invoked exactly once",
  "Whenever an operation accepts a completion callback (flush, delete, settings open/reload/flush, agent sync), that callback is invoked or scheduled exactly once on every path through the operation, whatever the configuration, and the objects that drive multi-step operations end by completing once and are then released.",
  ["inputs", "fault_sequences", "configurations"], "every outcome of each operation, including missing store, missing file, exception and empty work list",
  "Unit tests use one configuration per operation.",
  ["daemon/StatStore.cpp", "daemon/IStatStore.h", "daemon/Settings.cpp", "daemon/StatServer.cpp", "daemon/AdminServer.cpp", "daemon/IComplete.h"],
  [("post(on_complete)", "daemon/Settings.cpp, daemon/StatStore.cpp"), ("AgentFlushRequest destructor", "daemon/StatServer.cpp")])
p("R04", "Recurring activities never stop",
  "Accept loops, UDP receive, connection reads, and the periodic timers (counter sync, space check, empty-directory pruning, forwarding, reporting, metric cleanup, blacklist reload) always schedule their next round on every path of a round, including when the round itself fails; only cancellation may end them.",
  ["fault_sequences", "histories"], "every outcome of every round, any number of rounds", "A lost re-arm shows only after the rare failing round.",
  ["daemon/StatStore.cpp", "daemon/StatServer.cpp", "daemon/HttpServer.cpp", "daemon/EagerConnection.cpp", "daemon/EagerConnectionFactory.cpp", "daemon/PromExporter.cpp", "daemon/PromServer.cpp", "daemon/Blacklist.cpp"],
  [("xxxNext()/startXxx() re-arm calls", "the handlers of each timer and accept")])
p("R05", "Malformed input never takes the daemon down with an exception",
  "No exception raised while handling bytes, requests or commands received from the network (conversion failures, range errors, malformed JSON, closed connections, file errors) escapes the handler that processes them, so one client's input never terminates a worker thread or the process.",
  ["inputs", "fault_sequences"], "every input on the stat, admin, HTTP, metrics and replica ports", "Tests send well-formed or mildly malformed input only.",
  ["daemon/StatServer.cpp", "daemon/AdminServer.cpp", "daemon/RequestInFlight.cpp", "daemon/HttpServer.cpp", "daemon/ReplicaServer.cpp", "daemon/main.cpp"],
  [("try/catch boundaries", "handleCmd, go, on_pdu")])

# ---------------------------------------------------------------- input
p("I01", "Pieces of parsed input are only indexed where they exist",
  "Every element of a container or string built from external input (argument lists, header text, request bodies, settings values, counter names) is accessed only where its existence has been established, so no input makes the daemon read or write outside a buffer.",
  ["inputs"], "every input length and number of fields", "Tests use inputs of the expected shape.",
  ["daemon/AdminServer.cpp", "daemon/StatServer.cpp", "daemon/HttpServer.cpp", "daemon/RequestInFlight.cpp", "lib/strfunc.cpp"],
  [("size checks before indexing", "the listed files")])
p("I02", "Parsing and retry loops always make progress",
  "Every loop that scans external input, walks a shared structure or retries an atomic update advances or re-reads its state on every path around the loop, so no input and no interleaving can make a thread spin forever.",
  ["inputs", "schedules"], "every input string and every interleaving", "Only specific inputs (for example two adjacent separators) trigger a stall.",
  ["lib/strfunc.cpp", "daemon/StatServer.cpp", "daemon/AllKeys.cpp", "daemon/ReplicaPdus.cpp"], [("loop variables", "the listed files")])
p("I03", "Client-supplied names cannot reach files outside their directory",
  "A name taken from a network client (HTTP path, settings name from HTTP or the admin port, counter name) only ever becomes part of a file-system path after it has been made harmless: path separators replaced or the name checked against the allowed character set. No client can read, create or delete a file outside the directory that serves that kind of name.",
  ["inputs"], "every string a client can send", "Tests send ordinary names.",
  ["daemon/RequestInFlight.cpp", "daemon/AdminServer.cpp", "daemon/Settings.cpp", "daemon/StatCounterFactory.cpp", "lib/strfunc.cpp"],
  [("separator replacement", "serveFile"), ("is_valid_settings_name", "getSettings/on_storeSettingsBody"), ("munge/counter_filename", "StatStore::openCounter / StatCounterFactory")])
p("I04", "Client-supplied text in JSON answers is escaped",
  "Text that originates from clients (counter names, search patterns, agent metadata, setting keys and values) is escaped before it is placed between the quotes of a JSON answer, so no stored or requested name can break out of its string.",
  ["inputs"], "every name, pattern and metadata value", "Tests use plain names.",
  ["daemon/RequestInFlight.cpp", "lib/strfunc.cpp"], [("js_quote / Json writer", "daemon/RequestInFlight.cpp")])
p("I05", "Every complete input line is handled once, in order, in full",
  "Each newline-terminated line received on the stat ports (TCP or UDP) and the admin port is handed to its handler exactly once, without bytes of a neighbouring line, and exactly the bytes of handled lines (terminator included) are removed from the input. A partial last line stays for later. (A line of at most one character in a datagram may be ignored, and nothing more is handed on for an agent that was just cut off as blacklisted.)",
  ["inputs", "histories"], "every way of splitting any byte stream into reads or datagrams", "Tests use a few fixed splits.",
  ["daemon/StatServer.cpp", "daemon/AdminServer.cpp"], [("line scanners", "handle_inputData, on_udp_recv, AdminConnection::on_data")])
p("I06", "Replica messages are size-checked before they are interpreted",
  "A replica message's payload is interpreted as a typed record only if the received size is at least the size of that record, and its fields are copied only within the received bytes; a message that is too short is rejected.",
  ["inputs"], "every type, length and payload a peer can send", "No test sends malformed replica messages.",
  ["daemon/PduProtocol.h", "daemon/ReplicaPdus.h", "daemon/ReplicaPdus.cpp"], [("PDU dispatch", "daemon/PduProtocol.h PduCallable")])
p("I07", "Metric names and labels in the Prometheus exposition are sanitised",
  "Every metric name and label name emitted on the metrics endpoint consists only of characters Prometheus allows, whatever characters the originating counter name had, and label names come only from the allowed tag list; label values are escaped.",
  ["inputs"], "every counter name", "Tests sample some names.",
  ["daemon/PromExporter.cpp", "lib/strfunc.cpp"], [("prom_munge", "lib/strfunc.cpp")])
p("I08", "No configuration or request value causes a division by zero",
  "Every integer division or remainder in the daemon, library and splitter has a divisor that is known to be nonzero on every path: a nonzero constant, a validated configuration value, or a value tested on the path.",
  ["inputs", "configurations"], "every request parameter, retention policy and file header", "Tests use sensible values.",
  ["lib/StatFile.cpp", "daemon/StatCounter.cpp", "daemon/Retention.cpp"], [("divisor checks", "normalizeRange, RetentionPolicy, writeNewHeader")])

# ---------------------------------------------------------------- data / persistence
p("D01", "A counter file is used only after its header has been validated",
  "Whenever a counter file is opened, its magic number, readable version, page size and header size are checked before the file is used, a file failing any check is refused with an error, and a refused open leaks neither the file handle nor the mapped header. A new file is complete before its header is trusted.",
  ["inputs", "fault_sequences"], "every file content found on disk", "Tests open well-formed files.",
  ["lib/StatFile.cpp"], [("StatFile::open checks", "lib/StatFile.cpp")])
p("D02", "Bucket writes stay inside the file and never touch a read-only file",
  "Every bucket a sample or a flush writes lies in the slot range of the file: an index that is not in the file is never turned into a slot address. A file opened read-only is never modified, and a slot whose old content belongs to another time is cleared before new data is merged into it.",
  ["inputs", "histories"], "every timestamp and every history of updates", "Out-of-range indices need unusual time jumps.",
  ["lib/StatFile.cpp"], [("isBucketIndexInFile / fileWritable_", "lib/StatFile.cpp")])
p("D03", "On-disk and wire layouts never change",
  "The binary layout of counter file headers and buckets and of replica messages (size, order, offset and width of every field, magic value, version numbers) is fixed, so files and peers of other builds stay readable.",
  ["programs"], "every build of the tree", "Tests write and read with the same build, so both sides move together.",
  ["include/istat/Header.h", "include/istat/Bucket.h", "lib/Header.cpp", "daemon/ReplicaPdus.h"], [("packed structs", "Header.h, Bucket.h, ReplicaPdus.h")])
p("D04", "File descriptors, streams, directories and mappings are always released",
  "Every file descriptor, stdio stream, directory handle, memory mapping and single-owner heap object that a function acquires is released or handed to its owner on every path out of it, including error and exception paths.",
  ["fault_sequences"], "every failure point of every function that acquires one", "Leaks appear only on error paths tests do not take.",
  ["daemon/StatStore.cpp", "daemon/Settings.cpp", "daemon/Blacklist.cpp", "daemon/RequestInFlight.cpp", "lib/StatFile.cpp", "lib/Mmap.cpp", "daemon/main.cpp"], [("open/close pairing", "the listed files")])
p("D05", "Deleting a counter never destroys data that is not backed up",
  "When a counter is deleted, each of its files is flushed (including samples still being collated) and linked into the backup directory, and it is confirmed that the backup is this very file, before the original is removed; if the backup cannot be confirmed the original stays and the failure is reported.",
  ["fault_sequences", "crash_points"], "every failure of mkdir, link or remove, and a crash between any two steps", "Tests delete with a healthy file system.",
  ["daemon/StatCounter.cpp"], [("StatCounter::purge", "daemon/StatCounter.cpp")])
p("D06", "Saving a settings file replaces it atomically",
  "Saving settings writes the complete new content to a temporary file, closes it, checks that writing succeeded and then renames it over the old file, so at every moment a complete old or new version exists under the real name. Changes not yet written remain marked as unsaved when saving fails.",
  ["crash_points", "fault_sequences"], "a crash or write error at any point of a save", "Tests never crash or fill the disk during a save.",
  ["daemon/Settings.cpp"], [("RealSettings::save", "daemon/Settings.cpp")])
p("D07", "Only consistent retention policies are accepted",
  "An interval joins a retention policy only after it was validated: nonzero length and sample count, a trailing factor that is zero or strictly between 0 and 1, a length greater than the previous regular interval's, and no regular interval after a trailing one. Interval text with an unknown unit is refused. Anything else is rejected with an error before it becomes part of the policy.",
  ["configurations"], "every retention string", "Tests cover a few strings.",
  ["daemon/Retention.cpp"], [("RetentionPolicy validation", "daemon/Retention.cpp")])
p("D08", "Every accepted sample reaches every retention of its counter",
  "A sample accepted by a plain counter is written to all retention files of that counter; a collated sample is written to the finest file and its interval aggregate to all coarser files when the interval is shifted out. A sample is dropped only on a path that counts it as rejected, from the past or from the future.",
  ["inputs", "histories"], "every sample and history", "Tests check some retentions for some samples.",
  ["daemon/StatCounter.cpp", "daemon/StatStore.cpp"], [("record / shiftCollated", "daemon/StatCounter.cpp")])
p("D09", "Merging buckets accounts for every statistic",
  "Merging one bucket into another updates count, sum, sum of squares, minimum and maximum together: sums and counts accumulate, the minimum only decreases and the maximum only increases, and merging into an empty bucket takes all of the other's statistics.",
  ["inputs"], "every pair of buckets", "Tests merge a few values.",
  ["lib/Bucket.cpp", "include/istat/Bucket.h"], [("Bucket::update and friends", "lib/Bucket.cpp")])

# ---------------------------------------------------------------- lifecycle and other
p("E01", "Asynchronous callbacks never run on a destroyed object",
  "Every callback registered with the event loop, a timer, a socket or a signal keeps the object it runs on alive (or the object outlives the event loop, or disconnects the callback before it is destroyed), so no callback ever runs on a destroyed object.",
  ["schedules", "histories"], "every order of completions, disconnects and destructions", "Use after free needs a completion to arrive after the last other reference is gone.",
  ["daemon/EagerConnection.cpp", "daemon/HttpServer.cpp", "daemon/ReplicaServer.cpp", "daemon/RequestInFlight.cpp", "daemon/Settings.cpp", "daemon/StatStore.cpp"],
  [("Tramp/HttpRequestHolder/shared_from_this", "bind sites")])
p("E02", "Received samples are stored and forwarded unchanged",
  "Every parsed sample goes to the local store and, when forwarding is configured, to the forward buffer with the same name, time and statistics, and the forwarded text lists the fields in the order the receiver parses them with enough digits to reproduce the values.",
  ["inputs"], "every sample", "Tests forward small values.",
  ["daemon/StatServer.cpp"], [("handle_record / clearForward", "daemon/StatServer.cpp")])
p("E03", "Blacklisted agents are cut off before their data is used",
  "When a blacklist is configured, the blacklist is consulted before any command of a connection is interpreted, and once an agent is found blacklisted no further data from it reaches the store, the forwarders or the agent table, and its connection is closed.",
  ["inputs", "histories"], "every command sequence of a blacklisted agent", "Tests check one sequence.",
  ["daemon/StatServer.cpp", "daemon/Blacklist.cpp"], [("checkBlacklistAndMaybeClose", "daemon/StatServer.cpp")])
p("E04", "Privileges are dropped before the network is served",
  "The daemon switches its effective user to the configured user (ports may be opened before, as low ports need it) before any thread or event loop handles data of a client, and it ends with an error instead of serving when that switch fails or the user is unknown.",
  ["configurations", "fault_sequences"], "every configuration and failure of the identity calls", "Tests do not run as root with a user configured.",
  ["daemon/main.cpp"], [("drop_privileges / seteuid", "daemon/main.cpp")])
p("E05", "Gauges and in-flight counts stay balanced",
  "Every counter of things in flight (queued records, open connections, connected agents, active HTTP requests, scheduled key refreshes) is incremented once when the thing starts and decremented exactly once when it ends, on every path, so none drifts or reaches a limit it can never leave.",
  ["histories", "fault_sequences"], "every sequence of starts, ends and failures", "Drift shows only after rare paths.",
  ["daemon/StatServer.cpp", "daemon/StatStore.cpp", "daemon/StatCounter.cpp", "daemon/HttpServer.cpp", "daemon/EagerConnection.cpp", "daemon/ReplicaServer.cpp"], [("increment/decrement pairs", "the listed files")])
p("E06", "No state is used before it is initialised",
  "Every plain data member of an object is given a value by every constructor (or before its first possible read), and every local variable is assigned on every path before it is read, so behaviour never depends on leftover memory.",
  ["programs", "inputs"], "every constructor and every path", "Fresh memory is often zero in tests.",
  ["daemon/", "lib/"], [("constructor initialisers", "daemon/*.h, lib/*.cpp")])
p("E07", "One read and one write per connection; output bounded, cut at line ends",
  "A connection never has two reads or two writes outstanding at once, bytes are sent in the order they were queued, and output that cannot be sent is bounded: when the limit is exceeded the oldest data is discarded only up to and including a line terminator (or entirely if there is none).",
  ["schedules", "histories"], "every sequence of writes, completions, failures and reconnects", "Interleaved writes corrupt lines only under specific timing.",
  ["daemon/EagerConnection.cpp"], [("writePending_/readPending_, writeOut", "daemon/EagerConnection.cpp")])

# ---------------------------------------------------------------- not decided here (see DESIGN.md)
p("N01", "Aggregates reported for a time range are numerically right",
  "For every counter, range and sample limit, the buckets returned by a query are the correct aggregates (sum, count, min, max, average, deviation) of exactly the samples recorded in each bucket's interval, and reduction to fewer samples preserves them.",
  ["inputs", "histories"], "every history of samples and every query", "Tests check selected values.", ["daemon/StatCounter.cpp", "lib/Bucket.cpp"], [("select/reduce", "daemon/StatCounter.cpp")])
p("N02", "Glob patterns select exactly the matching names",
  "A search pattern selects exactly the counter or setting names that match it under the documented wildcard rules.",
  ["inputs"], "every pattern and name", "Tests sample patterns.", ["lib/strfunc.cpp"], [("str_pat_match", "lib/strfunc.cpp")])
p("N03", "Quoting and unquoting round-trip",
  "Text stored through the settings quoting functions and read back is unchanged for every string.",
  ["inputs"], "every string", "Tests sample strings.", ["lib/strfunc.cpp"], [("sql_quote/sql_unquote", "lib/strfunc.cpp")])
p("N04", "Flushed data survives a crash",
  "Samples recorded before a completed flush are present with the same values after the daemon is killed and restarted.",
  ["crash_points"], "a kill at any point", "Tests restart cleanly.", ["lib/StatFile.cpp", "lib/Mmap.cpp"], [("Mmap::flush", "lib/Mmap.cpp")])
p("N05", "Key listings reflect every existing counter",
  "After a counter exists it appears in every listing whose pattern it matches, and after its deletion completes it disappears, whatever refreshes run meanwhile.",
  ["schedules", "histories"], "every interleaving of creation, deletion, refresh and listing", "Tests list at rest.", ["daemon/StatStore.cpp", "daemon/AllKeys.cpp"], [("refreshAllKeys", "daemon/StatStore.cpp")])
p("N06", "Every counter is flushed within the configured interval",
  "Each counter is flushed at least once per flush interval whatever the number of counters and the load.",
  ["histories", "configurations"], "every load", "Tests do not measure it.", ["daemon/StatStore.cpp"], [("syncNext", "daemon/StatStore.cpp")])

ids = set()
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert x["id"] not in ids and len(x["title"]) <= 80, x["title"]
        ids.add(x["id"])
        f.write(json.dumps(x) + "\n")
print(len(P))
