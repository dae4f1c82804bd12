#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one-off generator; the jsonl is the committed artefact)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if hook: d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "Every accepted record reaches every handler exactly once, failures isolated",
  "A record accepted by the logger's filter is delivered to each of its handlers exactly once and in the order the handlers were given; a rejected record reaches none. A handler that throws anything neither stops the remaining handlers from receiving the record nor lets the exception escape the log call, and within a blocking handler the formatter runs once and every sink receives exactly the formatted bytes together with the record (what a sink after a failing one in the same blocking handler receives is left open).",
  ["inputs", "fault_sequences"], "all severities, all filter verdicts, every assignment of {ok, throws std::exception, throws other} to every handler, up to 3-4 handlers and 3 sinks, sequences of 2 log calls",
  "Tests use one mock handler and one throwing case; they do not enumerate which subset of handlers fails nor the number and order of deliveries.",
  ["src/root.cpp", "src/handler/blocking.cpp", "src/record.cpp"],
  [("dispatch loop with per-handler try/catch", "src/root.cpp root_logger_t::consume"), ("format once, emit to each sink", "src/handler/blocking.cpp blocking_t::handle")],
  ["calls received by handler/sink stubs", "exceptions leaving log()"])
p("C02", "Message formatting is lazy: done once if accepted, never if rejected",
  "A lazily supplied (or facade-formatted) message is produced exactly once for an accepted record and never for a rejected one. Handlers see the original pattern as the message, the produced text as the formatted message (or the message itself when nothing was supplied), the given severity, and a timestamp taken after acceptance.",
  ["inputs"], "all severities and filter verdicts, all integer arguments and string arguments up to the bound, with and without attribute lists, patterns of every length up to the bound whether or not NUL-terminated",
  "Tests check two fixed patterns; they never vary filter verdict together with argument values or non-NUL-terminated patterns.",
  ["src/root.cpp", "src/record.cpp", "include/blackhole/extensions/facade.hpp", "include/blackhole/extensions/facade.inl.hpp"],
  [("supplier called only after filter", "src/root.cpp consume"), ("record activation", "src/record.cpp activate"), ("argument capture by reference", "include/blackhole/extensions/facade.inl.hpp")],
  ["supplier call count", "record.message()/formatted()/severity()/timestamp()"])
p("C03", "Attributes visible in a record: call-site, wrappers, scopes, in that order",
  "A handler (and the filter) sees, for every record, exactly the call-site attributes, then those of each wrapper from the outermost inwards, then those of every live scope of the calling thread on that logger from the innermost outwards. A scope's attributes appear exactly while the scope object is alive, on any nesting history, only on the thread that opened it, and remain attached after the logger is moved or move-assigned.",
  ["inputs", "histories", "schedules"], "all histories of up to 5 scope push/pop/log/move operations, 0-2 wrappers, arbitrary attribute values, two threads with their own scopes",
  "Tests check fixed nestings on one thread; they do not cover histories mixing nesting, wrapping, moving the logger and threads.",
  ["src/root.cpp", "src/wrapper.cpp", "src/scope/watcher.cpp", "src/scope/holder.cpp", "include/blackhole/scope/watcher.hpp"],
  [("per-thread scope stack", "src/root.cpp thread_manager_t"), ("linked watchers", "src/scope/watcher.cpp"), ("pack append in wrapper", "src/wrapper.cpp")],
  ["record.attributes() in the handler and in the filter"])
p("C04", "An attribute value yields back exactly what was stored, or a bad_cast",
  "A value built from any bool, signed or unsigned integer, double, string, string view or null reports that same value through its typed accessor, through visitation and through its view, and stays equal under copy, move, assignment and self-assignment, leaving the copied-from value intact. Requesting another type through the throwing accessor raises bad_cast; two values compare equal exactly when type and contents are equal.",
  ["inputs", "histories"], "all 64-bit integers, bools, strings up to 24 bytes with arbitrary bytes (including NUL), every ordered pair of types, sequences of copy/move/assign",
  "Tests sample one value per type; they cannot cover the value range, embedded NUL bytes, or the type-pair matrix under assignment.",
  ["src/attribute.cpp", "include/blackhole/attribute.hpp"],
  [("boost::variant storage", "src/attribute.cpp value_t"), ("view conversion", "src/attribute.cpp view_t"), ("visitor adaptor", "include/blackhole/attribute.hpp")],
  ["attribute::get", "value_t::apply", "view_t::apply", "operator=="])
p("C05", "An owned record is a faithful copy that outlives its sources",
  "A record copied for deferred handling exposes the same message, formatted message, severity, timestamp, thread handle, kernel thread id and attributes (names, values, grouping order) as the original, for any number of attributes. It keeps doing so after every buffer of the original has been overwritten or freed and after the copy has been move-constructed or move-assigned any number of times.",
  ["inputs", "histories"], "messages and attribute strings up to the bound with arbitrary bytes, 0-3 attribute lists of 0-3 attributes of every type, chains of up to 3 moves, source storage clobbered",
  "Tests check one or two fixed records; they do not clobber sources for every shape nor cover all value types and move chains.",
  ["src/recordbuf.hpp", "src/record.cpp", "src/record.hpp"],
  [("deep copy of strings and attributes", "src/recordbuf.hpp"), ("pointer fix-up on move", "src/recordbuf.hpp")],
  ["recordbuf_t::into_view()"])
p("C06", "Pattern parsing is total: any pattern is accepted or rejected with an exception",
  "Compiling any byte string as a formatter pattern terminates and either succeeds or throws a standard exception; it never aborts, trips an assertion, reads or writes out of bounds or loops. In an accepted pattern doubled braces stand for single braces, and literal text outside placeholders is preserved byte for byte.",
  ["inputs"], "every pattern up to the stated length over all 256 byte values, plus every suffix of the stated length after each placeholder prefix ({severity:, {timestamp:{, {...:{, {process:, {thread:, {name:)",
  "Tests list a few dozen hand-written patterns; malformed specs one character away from the listed ones are never tried.",
  ["src/formatter/string/parser.cpp", "src/formatter/string/parser.hpp", "src/formatter/string/grammar.cpp", "src/formatter/string/token.cpp", "src/formatter/string/error.cpp", "src/formatter/string.cpp"],
  [("hand-written lexer", "src/formatter/string/parser.cpp"), ("boost.spirit grammar of the leftover placeholder", "src/formatter/string/grammar.cpp"), ("error types", "src/formatter/string/error.cpp")],
  ["formatter::string_t construction", "string::parser_t::next"])
p("C07", "The string formatter renders each placeholder from the record it is given",
  "Every placeholder of a pattern is replaced by its value: message, severity (number or configured name), process, thread, attribute by name, and the leftover placeholder renders every user attribute once, in reverse order, with its pattern and separator; literal text is copied unchanged. Strings and string views of any content, including embedded NUL bytes, brace characters and views not NUL-terminated, are written exactly as given by their length; a required attribute that is absent raises an error and an optional one yields its default.",
  ["inputs"], "arbitrary record contents (message, attribute names/values up to the bound, all severities), 0-3 attributes, each placeholder kind, severity map installed or not",
  "Tests render fixed records; contents with braces, NULs or views into larger buffers are not exercised.",
  ["src/formatter/string.cpp", "src/formatter/string/token.hpp", "src/formatter/string/token.cpp", "include/blackhole/attribute.hpp"],
  [("token visitor", "src/formatter/string.cpp"), ("attribute value writer", "src/formatter/string.cpp view_visitor")],
  ["writer_t::result() after format()"])
p("C08", "Formatted output is padded, aligned and never truncated, whatever its size",
  "For every fill, alignment and width, formatting a value yields its text padded with the fill character to the width on the side(s) the alignment demands, and unchanged if already wide enough (the locale-dependent 'n' and the zero flag combined with an explicit alignment are left open). Output of any length is produced completely and in order: growing past the inline buffer preserves every byte written before, and malformed format strings raise a format error instead of misbehaving.",
  ["inputs"], "all fill bytes, all alignments, widths up to the bound, all strings up to the bound, total output lengths on both sides of the inline buffer size and of every growth step, all format strings up to the stated length",
  "Tests pick a few widths; buffer-growth boundaries combined with padding and arbitrary malformed format strings are not reached.",
  ["include/blackhole/extensions/format.hpp", "src/format.cpp", "include/blackhole/extensions/writer.hpp"],
  [("padding and growth", "include/blackhole/extensions/format.hpp BasicWriter, MemoryBuffer::grow"), ("format string parser", "src/format.cpp")],
  ["fmt::MemoryWriter contents"])
p("C09", "Integers are rendered to their exact decimal, hex, octal or binary text",
  "For every 64-bit and 32-bit signed or unsigned integer, formatting it as decimal, hexadecimal (either case), octal or binary, with or without prefix, sign flag, width and zero padding, yields exactly the positional notation of its value, which parses back to the same integer.",
  ["inputs"], "all 2^64 values per presentation type (case split on digit count), all sign/prefix flags, widths up to the bound",
  "Tests try a handful of values; digit-count boundaries and extreme negatives for every presentation are not enumerated.",
  ["include/blackhole/extensions/format.hpp", "src/format.cpp"],
  [("digit generation and counting", "include/blackhole/extensions/format.hpp format_decimal, write_int"), ("digit table", "src/format.cpp")],
  ["fmt::MemoryWriter contents", "string formatter output for {severity:d}, {process:d}"])
p("C10", "Timestamps render the record's instant: exact UTC fields and microseconds",
  "For every instant the system clock can represent from 1970 on (that is, up to the year 2262), a record's timestamp placeholder yields, in UTC, the proleptic Gregorian calendar fields of that instant with exactly six zero-padded fractional digits, and in numeric form the count of microseconds since the epoch; the strftime directives other than the fractional-second one mean what strftime says. Literal percent signs, arbitrary surrounding text without NUL and long patterns never corrupt the rest of the output.",
  ["inputs"], "all microsecond instants from the epoch to the year 9999, every valid calendar date/time, patterns up to the bound over all directive characters",
  "Tests check a couple of instants; leap years, fraction zero-padding for all million values, and directive combinations cannot be sampled exhaustively.",
  ["src/datetime/generator.linux.cpp", "src/datetime/generator.linux.hpp", "src/formatter/string.cpp", "src/util/time.hpp", "src/formatter/json.cpp", "src/formatter/tskv.cpp"],
  [("strftime with %f expansion", "src/datetime/generator.linux.cpp"), ("gmtime/localtime conversion", "src/formatter/string.cpp, src/util/time.hpp")],
  ["formatted output of the timestamp placeholder"])
p("C11", "JSON output is always one valid JSON document faithful to its strings",
  "For any record the JSON formatter emits exactly one syntactically valid JSON object (plus the optional newline), and parsing every string in it gives back the original bytes of the message, attribute name or value: quotes, backslashes, control characters and NUL are escaped and nothing is truncated, dropped or reinterpreted. This holds for any output size, including past the formatter's internal buffers.",
  ["inputs"], "message, attribute names and string values up to the bound over all byte values, views not NUL-terminated, attribute counts 0-4, output sizes on both sides of internal buffer capacities",
  "Tests compare a few fixed strings; escaping for every byte at every position, NULs and buffer boundaries are not exercised.",
  ["src/formatter/json.cpp", "include/blackhole/formatter/json.hpp"],
  [("rapidjson writer over an fmt buffer", "src/formatter/json.cpp"), ("attribute value visitor", "src/formatter/json.cpp")],
  ["writer_t::result() after format()"])
p("C12", "JSON layout follows configuration: routing, renaming, unique, mutation, newline",
  "Every record field and user attribute appears exactly once, at the pointer it is routed to (the rest location otherwise), under its renamed key, with its value and type intact, for every combination of routing, renaming, unique, newline and mutation options. With unique enabled the most recent attribute of a name wins and no object holds a duplicate key (configurations that map two predefined fields to one key at one place are left open); mutated timestamp and severity carry the transformed value.",
  ["inputs", "configurations"], "all subsets of the formatter options over a pool of routes and names that may coincide with reserved names, arbitrary attribute names from a small alphabet (so duplicates occur), all severities",
  "Tests check each option in isolation on fixed attributes; combinations and name collisions are not covered.",
  ["src/formatter/json.cpp", "include/blackhole/formatter/json.hpp"],
  [("routing tables and rest routing", "src/formatter/json.cpp inner_t, builder_t"), ("unique filter", "src/formatter/json.cpp"), ("mutators", "src/formatter/json.cpp")],
  ["parsed JSON tree of the output"])
p("C13", "TSKV records are never mis-framed: values decode back to the originals",
  "For any message and attribute strings, a TSKV record is one line, without any raw newline or NUL in it (the sink adds the terminator), starting with the format tag, whose tab-separated fields split at the first unescaped equals sign; undoing the escapes of each value gives back its original bytes. No input byte can introduce a spurious field, record boundary or truncation.",
  ["inputs"], "message, attribute keys and string values up to the bound over all byte values (keys without tab/newline), values of every type, views not NUL-terminated",
  "Tests try one string with a few escapes; all bytes at all positions, NULs and unterminated views are not tried.",
  ["src/formatter/tskv.cpp", "include/blackhole/formatter/tskv.hpp"],
  [("escape tables for keys and values", "src/formatter/tskv.cpp")],
  ["writer_t::result() after format()"])
p("C14", "TSKV field selection follows the builder: create, remove, rename, mutate",
  "A TSKV record contains each created constant field, each predefined field and each user attribute not removed, exactly once, under its renamed key, with its exact value; removed fields never appear. The timestamp field follows the configured pattern and the numeric fields are exact.",
  ["inputs", "configurations"], "all subsets of create/remove/rename over predefined and user names, all severities and integer attribute values, arbitrary timestamps",
  "Tests check single options; combinations across predefined and user fields are not covered.",
  ["src/formatter/tskv.cpp", "include/blackhole/formatter/tskv.hpp"],
  [("field emission and maps", "src/formatter/tskv.cpp")],
  ["fields of the output line"])
p("C15", "The file sink stores every emitted line, once, in order, in the right file",
  "Every message emitted to the file sink appears exactly once, followed by a newline, in emission order, in the stream for the configured path, which is opened in append mode on first use only. If the file is replaced or removed between writes, the sink reopens the path before the next write and no message is lost or duplicated; write or open failures surface as exceptions, and buffered data is flushed when the sink is destroyed.",
  ["inputs", "histories", "fault_sequences"], "histories of up to 4 emits interleaved with inode change/removal/stat failure, arbitrary message bytes (incl. NUL, newline) up to the bound, open and write failure at any step",
  "Tests use mocks with fixed expectations; rotation happening between arbitrary writes and failures at arbitrary steps are not enumerated.",
  ["src/sink/file.cpp", "src/sink/file.hpp", "src/sink/file/rotate/stat.hpp", "src/sink/file/stream.hpp", "include/blackhole/sink/file.hpp"],
  [("backend cache per filename", "src/sink/file.hpp"), ("inode watcher", "src/sink/file/rotate/stat.hpp"), ("write+newline+flush", "src/sink/file.hpp backend_t")],
  ["bytes received by the stream", "calls of the stream factory"])
p("C16", "Flush thresholds are honoured and data sizes parse exactly or are rejected",
  "With a repeat policy of N the stream is flushed at the latest after every N records, with a byte-count policy of B no more than B bytes are written without a flush, for every N, B and sequence of message sizes. A size literal such as 10MB is accepted only if well-formed and representable, and then denotes exactly number times unit bytes; anything else raises an error.",
  ["inputs", "histories"], "all thresholds (64-bit), all sequences of up to 4 message sizes (64-bit), all literals up to the stated length over all bytes",
  "Tests check a few thresholds and literals; overflow, leading/trailing garbage and boundary sequences are not enumerated.",
  ["src/sink/file/flusher/repeat.hpp", "src/sink/file/flusher/bytecount.hpp", "src/sink/file.cpp", "include/blackhole/sink/file.hpp"],
  [("counters", "src/sink/file/flusher/*.hpp"), ("literal parser", "src/sink/file.cpp parse_dunit")],
  ["flusher result", "flush calls on the stream", "parsed threshold or exception"])
p("C17", "The asynchronous sink delivers every accepted record once, in order, then drains",
  "With the blocking overflow policy every record emitted by any thread reaches the wrapped sink exactly once with unchanged content, each producer's records in emission order; with the dropping policy a record is lost only if the queue was full. Destruction delivers everything accepted before it returns, without deadlock; the queue factor is limited to the documented range from 2 to 20, the configured policy is the one used, and wrapped-sink failures do not stop delivery.",
  ["schedules", "inputs", "configurations"], "all interleavings (bounded preemptions) of 1-2 producers and the worker, up to 3 records each, smallest queue so that it fills, every overflow policy, every exception outcome of the wrapped sink",
  "The unit tests only run one free schedule with a mock; full-queue, shutdown and lost-wakeup races need adversarial schedules.",
  ["src/sink/asynchronous.cpp", "src/sink/asynchronous.hpp", "src/sink/asynchronous.p.cpp", "include/blackhole/sink/asynchronous.hpp", "src/recordbuf.hpp"],
  [("bounded MPSC queue + condition variable", "src/sink/asynchronous.hpp, asynchronous.p.cpp"), ("overflow policies", "src/sink/asynchronous.p.cpp"), ("builder", "src/sink/asynchronous.cpp")],
  ["records received by the wrapped sink", "termination of destructor"])
p("C18", "Logging, refiltering and reassigning a logger from many threads is safe",
  "Any interleaving of log calls, filter replacement, logger move-assignment and scope use on one logger is free of data races and deadlocks. Each record is judged by one filter that was current during the call and delivered to the handlers of one logger that was current during the call, handlers stay alive while used, and once a reassignment or refilter has completed, and no later one follows, subsequent records use it: no update is lost.",
  ["schedules"], "all interleavings (bounded preemptions) of 2-3 threads, each performing 1-2 of: log, set filter, move-assign",
  "The two stress programs only check for crashes on whatever schedules occur; lost updates do not crash.",
  ["src/root.cpp", "src/spinlock.linux.hpp", "include/blackhole/root.hpp"],
  [("spin-locked shared_ptr load/store", "src/root.cpp sync_t"), ("filter copy under lock", "src/root.cpp inner_t::apply")],
  ["handlers invoked, filter invoked, final state after all threads join"])
p("C19", "Concurrent emits to one sink never race or interleave within a line",
  "When several threads emit to the same file, console, TCP or asynchronous sink, each record's bytes with their terminator reach the destination contiguously, each exactly once, in some order consistent with each thread's own order. There are no data races or deadlocks, also when two console sinks share the terminal.",
  ["schedules"], "all interleavings (bounded preemptions) of 2 threads emitting 1-2 records each to one sink or to two console sinks sharing a stream",
  "Existing tests are single-threaded for sinks.",
  ["src/sink/file.hpp", "src/sink/file.cpp", "src/sink/console.cpp", "src/sink/socket/tcp.cpp"],
  [("mutex per sink / global console mutex", "src/sink/file.hpp, src/sink/console.cpp, src/sink/socket/tcp.cpp")],
  ["byte sequence at the destination"])
p("C20", "Socket sinks transmit exactly the formatted bytes and recover from failures",
  "The TCP sink delivers all bytes of each emitted message in order even if the kernel accepts them in arbitrary pieces; it tries every address the host resolves to before giving up; a connection or write error surfaces as an exception, and the next emit reconnects before sending, never appending to a half-failed connection. The UDP sink sends each message as exactly one datagram to the configured endpoint; host and port configuration outside the valid range is rejected.",
  ["inputs", "fault_sequences"], "all partial-write splits, all placements of connect/write failures over up to 3 emits, arbitrary bytes up to the bound, all configured port values",
  "Tests talk to a loopback peer on the happy path; they cannot force short writes or failures at a chosen step.",
  ["src/sink/socket/tcp.cpp", "src/sink/socket/udp.cpp", "include/blackhole/sink/socket/tcp.hpp", "include/blackhole/sink/socket/udp.hpp"],
  [("connect-on-demand, write, error cleanup", "src/sink/socket/tcp.cpp"), ("single send_to", "src/sink/socket/udp.cpp")],
  ["system calls issued on the socket", "exceptions from emit"])
p("C21", "The syslog sink maps priorities and passes the message literally",
  "For each severity the syslog call carries the configured priority for it, or the documented default for an unmapped or negative severity, and the message text exactly as formatted (up to its first NUL byte, which syslog cannot carry), never interpreted as a format string and bounded by its length. The identity and options configured reach openlog and stay valid for as long as the sink logs.",
  ["inputs", "configurations"], "all 32-bit severities, all priority tables up to 4 entries, arbitrary message bytes (no NUL) up to the bound including percent sequences",
  "Tests mock one mapping; extreme severities and percent sequences are not covered.",
  ["src/sink/syslog.cpp", "src/sink/syslog.hpp", "include/blackhole/sink/syslog.hpp"],
  [("priority vector lookup", "src/sink/syslog.cpp"), ("%.*s call", "src/sink/syslog.cpp")],
  ["arguments of syslog(3)/openlog(3)"])
p("C22", "The console sink writes accepted records only, coloured only on a terminal",
  "A record rejected by the console sink's filter writes nothing; an accepted one writes its formatted bytes and one newline, wrapped in the colour sequence of its severity followed by a reset if and only if the destination is a terminal and a colour applies. Colour mappings for any severity, in any configuration order, select that severity's colour and leave others unaffected.",
  ["inputs", "configurations"], "all severities, all colour maps up to 3 entries (last wins), terminal or not, filter verdicts, arbitrary bytes up to the bound, stdout and stderr",
  "Tests cannot make the stream a terminal; maps with negative or repeated severities are not tried.",
  ["src/sink/console.cpp", "src/sink/console.hpp", "src/termcolor.cpp", "include/blackhole/sink/console.hpp"],
  [("isatty detection and colour mapping", "src/sink/console.cpp"), ("escape sequences", "src/termcolor.cpp")],
  ["bytes written to the stream"])
p("C23", "JSON configuration access returns what was written or a clear absence",
  "Every accessor of a configuration node returns exactly the value in the document when it is of the requested kind, throws a type-mismatch error otherwise, and never reads outside the document; missing keys or indices yield an absent option. Iteration visits each element (with its key for objects) exactly once in document order, and malformed documents are rejected with an exception at construction (comments and trailing commas are admitted extensions; unpaired surrogates and numbers beyond double are left open).",
  ["inputs"], "every document text up to the stated length over all bytes, and structured documents with arbitrary scalar values (all 64-bit integers, strings with arbitrary bytes), every accessor on every kind, arbitrary indices and keys",
  "Tests check one document per accessor; malformed texts, type/accessor matrix and integer ranges are not enumerated.",
  ["src/config/json.cpp", "src/config/json.hpp", "src/config/option.cpp", "include/blackhole/config/node.hpp", "include/blackhole/config/option.hpp"],
  [("rapidjson DOM adaptor", "src/config/json.hpp"), ("optional subtree", "src/config/option.cpp")],
  ["accessor results and exceptions"])
p("C24", "A configuration builds the logger it describes or fails with an exception",
  "Building a named logger from a configuration creates exactly the handlers, formatters and sinks listed, in order, with their options; using it behaves as the equivalent hand-built pipeline. Unknown logger names, unknown or missing component types and ill-typed options raise an exception naming the problem rather than crashing or being silently altered, and severity filters built by configuration accept exactly records at or above their threshold.",
  ["configurations", "inputs"], "all configurations from a schema with each field present/absent/of wrong kind, up to 2 handlers with 2 sinks, all integer values of numeric options",
  "Tests build a few good configurations; missing or ill-typed fields at each place are not enumerated.",
  ["src/registry.cpp", "src/handler/blocking.cpp", "src/essentials.cpp", "src/filter/severity.cpp", "src/formatter/string.cpp", "src/sink/console.cpp", "src/sink/asynchronous.cpp"],
  [("type registry", "src/registry.cpp"), ("factories", "src/*/*.cpp factory<T>::from")],
  ["components observed by calls, exceptions"])
p("C25", "string_view behaves as the byte sequence it designates",
  "Comparison, ordering, substring, element access and conversion on string views agree with the same operations on the designated byte sequences for all contents, including empty views, embedded NULs and bytes above 127. Equal views hash equally, and out-of-range access raises instead of reading outside the view.",
  ["inputs"], "all pairs of byte strings up to the bound, all positions and counts (64-bit)",
  "Tests compare a couple of literals; NULs, prefixes, and 64-bit position/count combinations are not covered.",
  ["include/blackhole/stdext/string_view.hpp"],
  [("view operations", "include/blackhole/stdext/string_view.hpp")],
  ["operation results"])
p("C26", "Compile-time formatting yields exactly what runtime formatting yields",
  "For every literal pattern accepted by the compile-time formatter and every argument list of the expected arity, the produced text equals that of the runtime formatter on the same pattern and arguments, including escaped braces and literal text before, between and after placeholders.",
  ["inputs", "programs"], "a generated family of patterns covering literal/placeholder/escape/spec sequences, all integer and string arguments up to the bound",
  "Tests compare a few patterns with one argument value each.",
  ["include/blackhole/extensions/metaformat.hpp", "include/blackhole/extensions/format.hpp"],
  [("constexpr pattern splitting", "include/blackhole/extensions/metaformat.hpp")],
  ["text written to the writer"])
p("C27", "The severity filter admits exactly records at or above its threshold",
  "A severity filter with threshold T accepts a record if and only if its severity is at least T, for every pair of values, both when built through the filter's factory directly and from a configuration file, and the per-sink filter of the console applies the same rule.",
  ["inputs", "configurations"], "all pairs of 32-bit severity and threshold, both construction paths",
  "Tests sample three severities around one threshold.",
  ["src/filter/severity.cpp", "include/blackhole/filter/severity.hpp", "src/filter/zen.hpp"],
  [("threshold comparison", "src/filter/severity.cpp"), ("factory", "src/filter/severity.cpp factory::from")],
  ["filter verdict"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
