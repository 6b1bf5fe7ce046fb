LOCKS = "interprocedural lockset dataflow over typed CFGs (guarded-field table, handle/alias tracking, entry locksets, cross-section read-then-change typestate)"
BASE = " Trust: clang front end and the extractor, the table of guarded fields / anchors in the rule file, call graph (class hierarchy, boost::bind, signals). "
FACTS = "path-sensitive dataflow of comparison facts (disjunctive difference-bound atoms) over typed CFGs with inlined helpers"
ONCE = "interprocedural event counting over inlined CFGs (path-sensitive on comparison facts; summaries per function, posted work and completion callbacks; exceptional counts per exception type)"
TECH = {
 "D02": FACTS + ": every conversion of an index into a bucket's address against its in-file and in-page tests, write-permission and cleared-slot marks; typestate of mapped pages along every path",
 "D08": "path counting of what becomes of a sample (stored, counted as dropped) and all-retentions loops (no early end, no iteration passed over); order of interval write and window move; " + FACTS,
 "E02": "value provenance of every statistic from the field of the text through all parameters to the sinks, path counting of stored/forwarded, path flow of the items written to each line sent on",
 "E05": "net change of every count of things in flight per path (constant-sensitive summaries), less the handlers bound to take it off; enders found from the code; atomicity by lockset; " + ONCE,
 "C06": "interprocedural may-held locksets: lock order graph through calls, signal slots, callbacks and destructors, with cycle detection; effect analysis for sleeping and waiting calls; " + FACTS + " for the feasibility of a chain",
 "I04": "string provenance (taint with marks): every part of every value written to an answer among JSON literals resolved to its sources; escaping functions recognised by the characters they copy and by what they write instead (finite-domain character flow)",
 "I07": "string provenance of the fields an exposition is written from, image of the name-mapping functions over all 256 bytes, flow of the possible first characters of a name",
 "I03": "string provenance (taint with marks) over inlined CFGs: parts of every file-system path resolved back to literals, operator configuration or outside text, sanitising functions judged by the character sets they let through; " + FACTS,
 "E03": FACTS + ": outcome of the blacklist lookup along every path to a consumer of input, typestate of the list while it is read",
 "E07": FACTS + " and lock sections: flag typestate of asynchronous operations, changes of buffers and queues, provenance of the cut position",
 "I05": "affine dataflow over the scanning loops: positions as linear forms over the loop head, ghosts for line end, bytes consumed and text handed on; " + FACTS,
 "R04": ONCE + ": next rounds of every self-scheduling handler (activities found as cycles of registrations), flag typestate, timer ownership",
 "R01": ONCE + ": answers of a request",
 "R02": ONCE + ": final answers of a command line",
 "R03": ONCE + ": completions of an accepted callback, releases of a worker",
 "C01": "whole-program strand-ownership analysis: call-graph reachability to counter operations, value tracking of (counter, strand) pairs, one-shot post counting over CFGs",
 "D05": FACTS + " with ghost typestate per file (flushed, linked, confirmed, removed) and a logged-on-failure rule",
 "C02": LOCKS, "C03": LOCKS, "C04": LOCKS + "; must-create-under-lock and atomic-pointer rules", "C05": LOCKS,
 "I02": "natural loops of inlined CFGs: direction of change of everything an exit or a later decision depends on, per path around the loop (path-sensitive in yes/no variables), re-reads of atomic updates, loop-carried (upward-exposed) variables, state read and written by called functions",
 "I08": FACTS + ": nonzero-divisor obligations with a checked field invariant table",
 "D03": "compile-time layout comparison: record layouts, constants and format literals computed by the compiler from the current source against a frozen table",
 "D06": FACTS + " with ghost typestate (temporary written, closed, checked, renamed)",
 "D07": FACTS + ": facts entailed at every insertion into a policy",
 "I06": FACTS + ": typestate of the replica message reader (header seen, length bounded, bytes available) and bounded reads of message text",
 "D09": "value numbering per path of Bucket::update and its constructors: the value each field holds at exit, compared with the rule of the statistic",
 "E06": "definite-assignment dataflow over locals, members and constructors, interprocedural",
 "R05": "interprocedural exception-effect analysis (types, handlers, signals, bound callables, flag arguments) with difference-bound analysis of string positions",
 "D04": "per-acquisition typestate over inlined CFGs with exception edges (held, released, owned, handed on), ownership of fields and destructors",
 "D01": FACTS + ": header checks as marks on every alternative that accepts a file, failed-step refusal, size before header; release by the typestate of D04",
 "E04": "must-dataflow over the call graph: user switched and verified before any call that runs event handlers",
}
NOTE = {
 "D04": "Every acquisition of a stream, directory, descriptor, mapping, block or single-owner object in the daemon and the library, on every path (exceptions included) out of every function that makes it; every field that owns one. Running out of memory is not looked at; AdminConnection's quit path (the object deletes itself in a slot) is outside the rule." + BASE,
 "D01": "Every constructor of StatFile on every path that accepts the file: the checks of the header made before, the steps of opening and creating, and what a refused file leaves behind." + BASE,
 "E05": "Every variable of the daemon that is stepped both up and down and is a field or global, every path of every function that steps it, and of every top-level handler that reaches one." + BASE,
 "C06": "Every acquisition of every lock in the daemon and the library, on every path and through every call made while it is held." + BASE,
 "I04": "Every write to a response stream in the daemon that follows or contains JSON punctuation." + BASE,
 "I07": "Every value written to an exposition, every key stored in a label table, every way a metric name is set." + BASE,
 "I03": "Every call of a file-system operation that is given a path, every part of that path on every value flow through locals, fields, parameters and callbacks." + BASE,
 "E03": "Every place where a line reaches the store, the forwarders, the exposition or the agent table, on every path of the line handlers; every change of the list and every use of the agent table." + BASE,
 "E07": "Every asynchronous read and write of every connection class, every change of their flags, buffers and queues." + BASE,
 "I05": "Every loop that looks for line ends in received bytes and hands text on, on every path of a round and every way out of the loop." + BASE,
 "R04": "Every cycle of registrations with the event loop, every path and exception exit of each of its handlers; errors excuse a timer's round only." + BASE,
 "R01": "Every function of the HTTP and metrics servers that is given a request or a step of one, with the work it hands to the event loop and to completion callbacks, on every path, with exceptions as effects." + BASE,
 "R02": "Every path of the admin command reader and the workers it starts, up to the text of the answer." + BASE,
 "R03": "Every function that takes a completion callback and every self-deleting worker, on every path including those of exceptions, through stored and posted callbacks." + BASE,
 "C01": "Every call of a counter operation in the whole program and every posting site that reaches one." + BASE,
 "D05": "Every path of the deletion code to a removal of a counter file, and every path on which a removal is skipped." + BASE,
 "C02": "Every access (direct, through iterators, references and handles) in the whole program, for all schedules, to the enumerated fields." + BASE,
 "C03": "Every access to the connection buffers and flags in the whole program, plus no blind change resting on a look in an earlier critical section." + BASE,
 "C04": "All accesses to shard maps, key index and counter pointer; create-if-missing in one section; shard lock and shard map use one index." + BASE,
 "C05": "All accesses to the enumerated settings, blacklist, metrics, accept, replica queue, multi-query and log state." + BASE,
 "I02": "Every loop of the daemon and library (tools, tests and the event loop itself aside): each path around it must move, in the strict sense where the direction is known, something its end or a later decision depends on. A change whose direction is unknown counts as movement; that the loop ends is not proved." + BASE,
 "I08": "Every integer division and remainder in the daemon and library; divisors through fields rest on an enumerated invariant whose every store is an obligation." + BASE,
 "D03": "Offsets, widths and types of every field of every on-disk and wire structure, the magic and the version constants, in every build." + BASE,
 "D06": "Every path of the save code up to the replacing rename, and the paths that clear the unsaved marks." + BASE,
 "I06": "Every path of the replica message reader and every decoder of a message body." + BASE,
 "D02": "Every function of StatFile that computes a bucket's address, writes one, or changes the header, on every path; that the slots of a page are as many as the arithmetic says is taken from the layout (D03), and that the file has the size of its header from D01." + BASE,
 "D08": "Every path of recording a sample and of flushing or closing a counter, with all loops over the retentions; what a retention file does with the sample is D02 and D09; whether a sample should be dropped is not judged." + BASE,
 "E02": "Every call that hands a sample on between the parser, the store, the counter, the exporter and the forward buffer, and every line sent on. The merging of buckets is D09; that the conversions of text to numbers are right is R05's." + BASE,
 "D09": "Every path of every function that merges or initialises a bucket." + BASE,
 "E06": "Every local and every plain member of every constructed class in the whole program, on every path." + BASE,
 "R05": "Every callable handed to the event loop, every destructor and every shared-pointer deleter; library exceptions come from a table of calls that throw." + BASE,
 "E04": "Every path from main to a call that runs the event loop or starts a thread that does." + BASE,
 "D07": "Every path on which an interval is added to a policy, in the current source." + BASE,
}
NA = {
 "N01": "Numerical correctness of aggregates over arbitrary histories quantifies over run-time values; no static argument in reach bounds them.",
 "N02": "Functional equivalence of the glob matcher with its specification needs reasoning about all string pairs (a proof or exhaustive run, not a static analysis).",
 "N03": "Round-trip of quote/unquote is functional equality over all strings; outside dataflow/typestate reach.",
 "N04": "Durability after a kill depends on what the kernel wrote back at run time; only the ordering parts are static (see D05, D06).",
 "N05": "Which keys a listing contains is a statement over histories of concurrent refreshes and list contents; the memory-safety and locking parts are decided under C04.",
 "N06": "Real-time flush bound depends on load and timing, which no static argument bounds.",
}
