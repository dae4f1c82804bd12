# What each check runs: harness entry points, bounds (parameters) per tier, vacuity labels.
CHECKS = {}
def C(id, src, runs, bounds, assumptions=(), **kw):
    CHECKS[id] = dict(src=src, runs=runs, bounds=bounds, assumptions=list(assumptions), **kw)
def R(entry, reach=(), quick=None, thorough=None, **kw):
    return dict(entry=entry, reach=list(reach), params=quick or {}, thorough=thorough or {}, **kw)

C('C24', 'c24.cpp', [
    R('c24_shape', ['handlers', 'none'], {'handlers': 2, 'sinks': 2}, {'handlers': 2, 'sinks': 2}),
    R('c24_names', ['known', 'unknown', 'logger', 'handler', 'formatter', 'sink', 'filter', 'wrapped', 'rotate', 'overflow'], {'len': 3}, {'len': 5}),
    R('c24_empty', ['done'], {'len': 3}, {'len': 6}),
    R('c24_kinds', ['accepted', 'refused']),
    R('c24_numbers', ['accepted', 'refused']),
    R('c24_pipeline', ['done'], {'pipe': 0, 'len': 1}, {'pipe': 0, 'len': 3}, name='c24_pipeline_0'),
    R('c24_pipeline', ['done'], {'pipe': 1, 'len': 1}, {'pipe': 1, 'len': 3}, name='c24_pipeline_1'),
    R('c24_pipeline', ['done'], {'pipe': 2, 'len': 1}, {'pipe': 2, 'len': 2}, name='c24_pipeline_2'),
    R('c24_pipeline', ['done'], {'pipe': 3, 'len': 1}, {'pipe': 3, 'len': 2}, name='c24_pipeline_3'),
], 'up to 2 handlers with up to 2 sinks each, with all identities; names of up to 3 (thorough 5) arbitrary bytes for the logger and each kind of component; 34 options of every component but sockets, absent or with 17 values of every kind; all 64-bit priorities and flush counts; four configured pipelines against hand-built ones for messages of up to 1 (thorough 3) arbitrary bytes, severities -1..3 and up to two attributes')

C('C25', 'c25.cpp', [
    R('c25_compare', ['same size', 'both empty'], {'max': 4}, {'max': 7}),
    R('c25_access', ['in', 'out'], {'max': 4}, {'max': 8}),
    R('c25_substr', ['thrown', 'ok'], {'max': 4}, {'max': 8}),
    R('c25_convert', ['max'], {'max': 4}, {'max': 8}),
    R('c25_hash', ['nonempty'], {'max': 3}, {'max': 6}),
    R('c25_sizes', ['same', 'longer'], {'max': 2}, {'max': 4}),
], 'byte strings up to the stated max length with all 256 byte values; positions, counts and indices: all 64-bit values; claimed sizes: all below 2^46, of which up to 2 (thorough 4) bytes are looked at')

C('C01', 'c01.cpp', [
    R('c01_dispatch', ['delivered', 'rejected'], {'handlers': 3, 'outcomes': 3, 'calls': 2}, {'handlers': 4, 'outcomes': 3, 'calls': 2}),
    R('c01_overloads', ['acc', 'rej']),
    R('c01_blocking', ['all'], {'len': 3}, {'len': 8}),
    R('c01_many', ['done'], {'calls': 5}, {'calls': 7}),
    R('c01_again', ['nested', 'plain']),
], 'up to 3 (thorough 4) handlers and 3 sinks, every assignment of ok/std::exception/other to each for two log calls, one handler failing in every pattern over 5 (thorough 7) calls, all 32-bit severities and thresholds, message bytes symbolic; a blocking handler used again and inside a sink of itself or of another')

C('C02', 'c02.cpp', [
    R('c02_plain', ['accepted', 'rejected']),
    R('c02_lazy', ['accepted', 'rejected']),
    R('c02_facade', ['accepted', 'rejected'], {'lit': 1, 'small': 1}, {'lit': 2, 'small': 0}),
    R('c02_meta', ['accepted', 'rejected']),
    R('c02_facade64', ['ok'], thorough_only=True),
    R('c02_laziness', ['accepted', 'rejected']),
    R('c02_nested', ['inside', 'plain']),
], 'messages, supplied texts and pattern literals up to 3 bytes (all byte values), all 32-bit severities/thresholds, all 64-bit clock values and integer arguments, views not NUL-terminated; log calls nested in handlers, arguments and suppliers')

C('C03', 'c03.cpp', [
    R('c03_order', ['deep']),
    R('c03_history', ['done', 'merged'], {'ops': 5}, {'ops': 6}),
    R('c03_threads', ['joined'], opts={'preempt': 2}, thorough_opts={'preempt': 3}),
], 'up to 3 wrappers x 3 scopes x all log overloads; every history of 5 (thorough 6) operations among open/close/move-assign/move-construct/log on two loggers; two threads with up to 2 scopes each, 2 (thorough 3) preemptions', [
    'scopes are closed in reverse order of creation (documented precondition) and moved-from loggers are only destroyed or assigned to'])

C('C04', 'c04.cpp', [
    R('c04_store', ['stored']),
    R('c04_view', ['stored']),
    R('c04_equality', ['equal', 'different']),
    R('c04_equality_double', ['done']),
    R('c04_history', ['done'], {'ops': 2, 'kinds': 4}, {'ops': 2, 'kinds': 6}),
    R('c04_history', ['done'], {}, {'ops': 3, 'kinds': 3}, name='c04_history3', thorough_only=True),
    R('c04_display', ['done']),
], 'every constructor with all 8..64-bit integer values, all 2^64 double bit patterns for storage (equality of doubles on 6 representative values: the engine does not do symbolic floating-point comparison), strings of length 0,1,3,15,16,24 with symbolic bytes; histories of 2 (thorough 3) copy/move/assign operations over three values')

C('C05', 'c05.cpp', [
    R('c05_copy', ['copied']),
    R('c05_many', ['moved']),
    R('c05_history', ['done'], {'ops': 2}, {'ops': 4}),
], 'records with 0..2 lists of 0..2 attributes and with 15..18 attributes or lists (both sides of the inline capacity of 16), every attribute type, symbolic strings of 0/3/20 bytes, all 64-bit timestamps and thread ids; every history of 2 (thorough 4) moves over three records; the original memory is overwritten and freed')

C('C06', 'c06.cpp', [
    R('c06_any', ['accepted', 'rejected', 'literal'], {'max': 5}, {'max': 7}),
    R('c06_literals', ['accepted', 'rejected', 'literal'], {'k': 2}, {'k': 3}),
    R('c06_spec', ['accepted', 'rejected'], {'k': 2}, {'k': 4}),
    R('c06_name', ['accepted', 'rejected']),
    R('c06_nested', ['accepted', 'rejected'], {'k': 1}, {'k': 2}),
    R('c06_width', ['accepted', 'rejected']),
    R('c06_deep', ['accepted', 'rejected']),
], 'patterns of up to 5 (thorough 7) arbitrary bytes; up to 2 (thorough 3) arbitrary bytes before, between and after two {message} placeholders; each placeholder kind with up to 2 (thorough 4) arbitrary specification bytes, closed or not; 11 nested heads x 8 tails with up to 1 (thorough 2) arbitrary bytes between; literal texts and specifications of up to 258 bytes or nested braces; every accepted pattern is also rendered once', [
    'strftime flags and field widths inside timestamp patterns are outside the C library model'])

C('C07', 'c07.cpp', [
    R('c07_message', ['text', 'empty'], {'len': 4}, {'len': 8}),
    R('c07_attribute', ['found'], {'len': 3}, {'len': 8, 'full': 1}),
    R('c07_absent', ['raised', 'default']),
    R('c07_lookup', ['first', 'second', 'third']),
    R('c07_severity', ['done']),
    R('c07_sevmap', ['named', 'number']),
    R('c07_ids', ['done']),
    R('c07_names', ['done']),
    R('c07_leftover', ['many', 'none', 'few']),
    R('c07_mixed', ['done']),
    R('c07_long', ['done']),
    R('c07_twice', ['first', 'again'], {'rounds': 2, 'kinds': 3, 'shapes': 4}),
], 'messages and string attributes of 0..4 (thorough 8) arbitrary bytes and of 480..524 bytes, not NUL-terminated; integer attributes of -1000..999 and the 1000 largest unsigned ones (thorough: all 64-bit values), all 64-bit thread handles and all 32-bit severities, process and thread ids; doubles and user types by representative; up to 2 lists of up to 2 attributes; fixed set of patterns per placeholder; every sequence of 2 records of 4 shapes through 3 formatters while the thread name, process id and thread id change')

C('C27', 'c27.cpp', [
    R('c27_filter', ['accepted', 'rejected']),
    R('c27_json', ['accepted', 'rejected']),
    R('c27_digits', ['accepted', 'rejected', 'malformed']),
    R('c27_missing', ['refused']),
    R('c27_console', ['accepted', 'rejected']),
], 'all 32-bit severities against all 64-bit thresholds through a configuration node; 14 boundary thresholds and every 3-character number in a JSON document; 10 documents without a usable threshold')

C('C22', 'c22.cpp', [
    R('c22_colours', ['plain', 'coloured', 'tty-plain'], {'maps': 2, 'len': 1}, {'maps': 3, 'len': 3}),
    R('c22_custom', ['hit', 'base']),
    R('c22_default', ['done'], {'len': 3}, {'len': 8}),
    R('c22_filter', ['accepted', 'rejected']),
    R('c22_two', ['done']),
    R('c22_long', ['done']),
], 'up to 2 (thorough 3) colour mappings of any 32-bit severity to any of the 7 colours, any record severity, both streams and terminal answers, records of 0..3 (thorough 8) arbitrary bytes and of about 4000')

C('C09', 'c09.cpp', [
    R('c09_dec64', ['neg', 'pos'], {'how': 0}, name='c09_dec64_0', thorough_only=True),
    R('c09_dec64u', ['done'], {'how': 0}, name='c09_dec64u_0', thorough_only=True),
    R('c09_dec64', ['neg', 'pos'], {'how': 1}, name='c09_dec64_1'),
    R('c09_dec64u', ['done'], {'how': 1}, name='c09_dec64u_1'),
    R('c09_dec64', ['neg', 'pos'], {'how': 2}, name='c09_dec64_2', thorough_only=True),
    R('c09_dec64u', ['done'], {'how': 2}, name='c09_dec64u_2', thorough_only=True),
    R('c09_dec64', ['neg', 'pos'], {'how': 3}, name='c09_dec64_3', thorough_only=True),
    R('c09_dec64u', ['done'], {'how': 3}, name='c09_dec64u_3'),
    R('c09_dec64', ['neg', 'pos'], {'how': 4}, name='c09_dec64_4', thorough_only=True),
    R('c09_dec64u', ['done'], {'how': 4}, name='c09_dec64u_4', thorough_only=True),
    R('c09_dec32', ['signed', 'unsigned'], {'how': 0}, name='c09_dec32_0'),
    R('c09_dec32', ['signed', 'unsigned'], {'how': 1}, name='c09_dec32_1'),
    R('c09_dec32', ['signed', 'unsigned'], {'how': 2}, name='c09_dec32_2'),
    R('c09_dec32', ['signed', 'unsigned'], {'how': 3}, name='c09_dec32_3'),
    R('c09_small', ['done']),
    R('c09_base64', ['neg', 'pos']),
    R('c09_base64u', ['pos']),
    R('c09_base32', ['neg', 'pos']),
    R('c09_base32u', ['pos']),
    R('c09_specs', ['done']),
    R('c09_layout', ['done'], {'widths': 4, 'bases': 3, 'window': 99}, {'widths': 6, 'bases': 5, 'window': 99}),
    R('c09_unsigned_sign', ['refused']),
], 'decimal: every 32- and 64-bit signed and unsigned value through write() (quick) and through every entry point (thorough; FormatInt of 32-bit values near its boundaries); hexadecimal, octal and binary with and without prefix: every 32- and 64-bit value; sign flags, 6 alignments and widths 0..7 (thorough 0..70) over windows of 100 values at 0, 10^9 and 2^32 (thorough also both ends of the 64-bit range)')

C('C08', 'c08.cpp', [
    R('c08_string', ['padded', 'unchanged'], {'len': 2, 'width': 6}, {'len': 5, 'width': 12}),
    R('c08_spec', ['refused', 'rendered'], {'spec': 3}, {'spec': 4}),
    R('c08_double', ['done']),
    R('c08_pattern', ['refused', 'rendered', 'other'], {'max': 4}, {'max': 5}),
    R('c08_grow', ['grown'], {'ops': 2, 'sizes': 8}, {'ops': 3, 'sizes': 8}),
    R('c08_nested', ['ok', 'refused']),
    R('c08_fields', ['refused', 'rendered'], {'fields': 3, 'kinds': 22}, {'fields': 4, 'kinds': 22}),
    R('c08_many', ['refused', 'rendered']),
], 'strings of up to 2 (thorough 5) arbitrary bytes, every fill byte, 4 alignments, widths to 6 (12), precisions; specifications of up to 3 (4) arbitrary bytes for int, unsigned, string, char, bool and pointer arguments against an independent reading of the documented grammar; whole patterns of up to 4 (5) arbitrary bytes; 10 doubles in every arrangement; every sequence of 2 (3) writes of 8 sizes around the 500-byte inline buffer; all 64-bit nested widths and precisions; every pattern of 3 (4) out of 22 replacement fields with automatic, manual and named arguments; 20 arguments referred to by any index', [
    "locale-dependent 'n' is excluded, and so is the unspecified combination of the zero flag with an explicit alignment"])

C('C11', 'c11.cpp', [
    R('c11_strings', ['full', 'partial'], {'msg': 2, 'name': 1, 'value': 1}, {'msg': 2, 'name': 2, 'value': 2}),
    R('c11_one', ['done'], {'len': 3}, {'len': 4}),
    R('c11_long', ['done'], {'sizes': 6}, {'sizes': 8}),
    R('c11_many', ['done'], {'sizes': 4}, {'sizes': 6}),
    R('c11_types', ['done']),
    R('c11_produced', ['done'], {'len': 1}, {'len': 2}),
    R('c11_user', ['done'], {'lens': 5}),
    R('c11_twice', ['done']),
], 'messages, attribute names and values of up to 2 (thorough 4) arbitrary bytes each and of 499..9000 bytes with arbitrary first and last byte; 10..300 attributes; every value type with boundary and windowed integers and 9 doubles; severity names, timestamp patterns, formatting specifications and renamed keys of up to 1 (thorough 2) arbitrary bytes', ['bytes above 127 are compared as they are: UTF-8 validity of the input is the caller\'s business'])

C('C12', 'c12.cpp', [
    R('c12_layout', ['unique', 'all'], {'rests': 5, 'names': 4}, {'rests': 5, 'names': 5}),
    R('c12_mutation', ['done']),
    R('c12_names', ['named', 'empty'], {'len': 1}, {'len': 2}),
    R('c12_recent', ['distinct', 'merged']),
    R('c12_invalid', ['refused', 'accepted']),
    R('c12_array', ['done']),
    R('c12_twice', ['first', 'again'], {'rounds': 2, 'kinds': 4, 'shapes': 5}, {'rounds': 3, 'kinds': 4, 'shapes': 4}),
    R('c12_many', ['unique', 'all'], {'n': 36}, {'n': 70}),
    R('c12_many', ['unique', 'all'], {'n': 36, 'near': 1}, {'n': 70, 'near': 1}, name='c12_many_near'),
], 'every combination of 5 routings x 5 rest routes x 4 renamings x unique x newline with up to 2 attributes of 4 (thorough 5) names, in one or two lists, through the builder or a JSON configuration; mutations, formatting and all severities -3..6 and the extremes; three attributes with arbitrary names of a 3-letter alphabet; every route of up to 3 ASCII bytes; every sequence of 2 (thorough 3) records of 5 (4) shapes through 4 formatters with different options; 36 (70) attributes with one repeated name at any position', ['two predefined fields are not mapped to one key at one place'])

C('C13', 'c13.cpp', [
    R('c13_strings', ['full', 'partial'], {'msg': 2, 'name': 1, 'value': 1}, {'msg': 2, 'name': 2, 'value': 2}),
    R('c13_one', ['constant', 'other'], {'len': 2}, {'len': 4}),
    R('c13_long', ['done'], {'sizes': 4}, {'sizes': 6}),
    R('c13_produced', ['done'], {'len': 2}, {'len': 3}),
    R('c13_twice', ['done']),
], 'messages, attribute names and values, constant names and values and new names of up to 2 (thorough 4) arbitrary bytes and of 490..501 (4097) bytes with arbitrary first and last byte; text written by user types and timestamp patterns of up to 2 (3) bytes')

C('C14', 'c14.cpp', [
    R('c14_options', ['removed', 'kept'], {'names': 8}),
    R('c14_pairs', ['all', 'some']),
    R('c14_values', ['done']),
    R('c14_severity', ['neg', 'pos']),
    R('c14_clock', ['utc', 'local']),
    R('c14_twice', ['first', 'again'], {'rounds': 2, 'kinds': 4, 'shapes': 5}, {'rounds': 3, 'kinds': 4, 'shapes': 4}),
], 'every combination of creating, removing and renaming over 8 predefined and user names through the reference and rvalue builder interfaces and through a JSON configuration; every subset of removed predefined fields with renaming cycles and mutations; every value type at its boundaries; severities within 120 of zero and 48 of the extremes; every year 1970-2100, hour, minute and second, microsecond windows, UTC and local time; every sequence of 2 (thorough 3) records of 5 (4) shapes through 4 formatters with different options')

C('C10', 'c10.cpp', [
    R('c10_days', ['done'], {'from': 0, 'to': 416, 'step': 4}, {'from': 0, 'to': 416, 'step': 1}),
    R('c10_seconds', ['done']),
    R('c10_micro', ['done'], {'combos': 1, 'hows': 1}, {'combos': 4, 'hows': 3}),
    R('c10_micro', ['done'], {'combos': 4, 'hows': 3, 'usmax': 255}, name='c10_micro_low'),
    R('c10_week', ['done'], {'to': 60}, {'to': 416}),
    R('c10_numeric', ['done']),
    R('c10_directives', ['local', 'utc'], {'max': 3, 'instants': 1}, {'max': 4, 'instants': 3}),
    R('c10_sequences', ['local', 'utc'], {'k': 3, 'kinds': 8}, {'k': 4, 'kinds': 12}),
    R('c10_long', ['done']),
    R('c10_around', ['done']),
    R('c10_twice', ['again'], {'rounds': 2, 'kinds': 7, 'times': 5}, {'rounds': 3, 'kinds': 6, 'times': 3}),
], 'dates: every day from 1970 to 2262 (quick: every fourth window of 256 days); every second of 8 days; every microsecond of 4 seconds, through the string, JSON and TSKV formatters; weekday and day of year for every day to 2012 (thorough: to 2262); numeric form over 6 windows; patterns of up to 3 (thorough 4) arbitrary bytes and sequences of 3 (4) directives with a local time and a normalising mktime; patterns of 1000..5000 bytes; every sequence of 2 (thorough 3) renderings out of 7 formatters (UTC, local, both) and 5 instants', ['patterns without NUL; strftime flags and field widths are outside the C library model', 'the reference for single directives is the C library itself (its model in rt/env.cpp, glibc on replay)'])

C('C15', 'c15.cpp', [
    R('c15_history', ['unused', 'rotated', 'single'], {'ops': 5, 'len': 1, 'every': 1}, {'ops': 6, 'len': 2, 'every': 1}),
    R('c15_faults', ['failed', 'unused', 'rotated', 'single'], {'ops': 3, 'len': 1, 'every': 1}, {'ops': 5, 'len': 1, 'every': 1}),
    R('c15_sizes', ['done'], {'emits': 2}, {'emits': 3}),
    R('c15_write_failure', ['failed']),
    R('c15_after_failure', ['done'], {'emits': 3}, {'emits': 4}),
    R('c15_two', ['done'], {'emits': 3}, {'emits': 5}),
], 'histories of up to 5 (thorough 6) operations out of emit, remove and replace the file, with failing opens and stats, records of 0..1 (thorough 2) arbitrary bytes and of up to 20000 around the stream buffer size, writes taken in pieces, one failing write',
  ['the file system is an in-memory model with inodes behind std::basic_filebuf and stat(2); std::basic_filebuf itself is encoded'])

C('C16', 'c16.cpp', [
    R('c16_repeat', ['flushed', 'idle'], {'records': 10}, {'records': 20}),
    R('c16_repeat_long', ['done'], {'max': 40}, {'max': 120}),
    R('c16_bytes', ['flushed', 'idle'], {'records': 3, 'bits': 32}, {'records': 3, 'bits': 64}),
    R('c16_bytes_huge', ['flushed', 'idle'], {'records': 3}, {'records': 3}, thorough_only=True),
    R('c16_bytes_small', ['done'], {'records': 4}, {'records': 6}),
    R('c16_sink', ['bytes', 'records'], {'max': 5, 'emits': 3}, {'max': 9, 'emits': 4}),
    R('c16_units', ['done']),
    R('c16_sink_units', ['done'], {'emits': 2}, {'emits': 3}),
    R('c16_literals', ['accepted', 'rejected'], {'max': 4}, {'max': 6}),
    R('c16_mutated', ['accepted', 'rejected'], {'insert': 2}, {'insert': 3}),
] + [R('c16_magnitude', ['fits', 'too large'], {'u': u, 'digits': d, 'sym': 2}, {'u': u, 'digits': d, 'sym': 4}, name='c16_magnitude_%d_%d' % (u, d)) for u, d in [(0, 20), (1, 21), (2, 17), (4, 11), (5, 17), (7, 11)]] + [
    R('c16_config', ['ok', 'error']),
], 'repeat policy: every 64-bit threshold and record size, 10 (thorough 20) records, thresholds up to 40 (thorough 120) over three periods; byte policy: every 64-bit threshold, 3 records of every size below 2^63 (quick: 32-bit thresholds), 4-bit quantities over 4 (thorough 6); literals: every string of up to 4 (thorough 6) bytes, numbers of up to 21 digits around the representable limit for every unit')

C('C21', 'c21.cpp', [
    R('c21_priorities', ['mapped', 'default'], {'map': 3, 'len': 2}, {'map': 6, 'len': 4}),
    R('c21_text', ['done']),
    R('c21_any', ['done'], {'len': 5}, {'len': 10}),
    R('c21_many', ['logged', 'idle'], {'ops': 5}, {'ops': 7}),
    R('c21_invalid', ['fits', 'refused']),
], 'mappings of up to 3 (thorough 6) arbitrary 32-bit priorities, all 32-bit severities, texts of up to 5 (thorough 10) arbitrary bytes and fixed ones with conversion specifications or 3000 bytes; up to 3 sinks over 5 (thorough 7) creations, records and destructions; all 64-bit configured priorities',
  ['openlog, syslog and closelog are replaced by a model that keeps the identity pointer as glibc does and interprets the format; text after an embedded NUL cannot be carried by syslog(3)'])

C('C23', 'c23.cpp', [
    R('c23_scalars', ['done'], {'len': 2, 'digits': 3}, {'len': 4, 'digits': 6}),
    R('c23_limits', ['double', 'integer'], {'digits': 2}, {'digits': 4}),
    R('c23_iterate', ['inside', 'outside', 'found'], {'n': 2, 'klen': 2}, {'n': 3, 'klen': 2}),
    R('c23_throw', ['done']),
    R('c23_documents', ['accepted', 'rejected'], {'max': 3}, {'max': 5}),
    R('c23_mutated', ['accepted', 'rejected']),
    R('c23_truncated', ['rejected']),
    R('c23_stream', ['done']),
    R('c23_agree', ['agree', 'rejected'], {'len': 2}, {'len': 4}),
], 'every document of up to 3 (thorough 5) bytes; 4 documents with one byte replaced, inserted or removed; strings of up to 2 (thorough 4) arbitrary bytes, integers of up to 3 (thorough 6) arbitrary digits and around the 32- and 64-bit limits; arrays and objects of up to 2 (thorough 3) members with arbitrary keys; all 64-bit indices; documents nested to a depth of at most 20')

C('C26', 'c26.cpp', [
    R('c26_patterns', ['rejected', 'plain', 'one', 'more'], {'len': 5}, {'len': 7}),
    R('c26_literals', ['done']),
    R('c26_ints', ['done']),
    R('c26_texts', ['done'], {'len': 4}, {'len': 8}),
    R('c26_null', ['done']),
    R('c26_doubles', ['done']),
    R('c26_long', ['done'], {'n': 20}, {'n': 60}),
], 'every pattern of up to 5 (thorough 7) bytes without NUL with a string and an integer argument; 12 literal patterns parsed at compile time; all values of the integer types up to 32 bits, 500 to 2000 values at the ends of the 64-bit ones, strings of up to 4 (thorough 8) arbitrary bytes and around 500; doubles by representative',
  ['the constexpr parsing functions are executed symbolically at run time for arbitrary patterns; for literal patterns the compiler evaluates them'])

C('C17', 'c17.cpp', [
    R('c17_one', ['lost', 'dropping', 'waited', 'waiting'], {'n': 6}, {'n': 7}, opts={'preempt': 1, 'races': True, 'max_polls': 6}, thorough_opts={'preempt': 2, 'races': True, 'max_polls': 8}),
    R('c17_two', ['lost', 'drop', 'wait'], {'n0': 3, 'n1': 3}, {'n0': 4, 'n1': 4}, opts={'preempt': 1, 'races': True, 'max_polls': 6}, thorough_opts={'preempt': 1, 'races': True, 'max_polls': 8}),
    R('c17_two', ['drop', 'wait'], {'n0': 2, 'n1': 1}, {'n0': 3, 'n1': 2}, opts={'preempt': 2, 'races': True, 'max_polls': 4}, thorough_opts={'preempt': 2, 'races': True, 'max_polls': 6}, name='c17_two_deep'),
    R('c17_factor', ['refused', 'accepted'], {'fmax': 4}, {'fmax': 8}, opts={'preempt': 0, 'max_polls': 8}),
    R('c17_range', ['accepted'], {'fmax': 20, 'huge_new_fails': 1}, opts={'preempt': 0}),
    R('c17_config', ['refused', 'accepted'], opts={'preempt': 0}),
], 'queue of factor 2 (4 records); one producer of up to 6 (thorough 7) records or two of 3+3 (4+4), with message bytes symbolic, texts of 1-3 bytes, attributes on every second record, a wrapped sink that may throw and may be held until all is emitted, both policies through four ways of building the sink; every interleaving of the producers and the delivering thread with 1 preemption (2 for small cases; thorough 2) besides voluntary switches, with data-race detection; every factor 0-20 and 9 large values', [
    'sequentially consistent interleavings with happens-before race detection: reorderings of relaxed atomics are not enumerated',
    'a thread polling (sleep, yield, timed wait) without any change is not rescheduled until something changes, except that each thread lets one timed wait run out by itself',
    'capacity is confirmed for factors up to 4 (thorough 8); larger accepted factors are only built by the existing tests'])

C('C18', 'c18.cpp', [
    R('c18_trio', ['moved', 'refiltered', 'plain'], {'n': 1, 'logs': 1}, {'n': 1, 'logs': 2}, opts={'preempt': 3, 'races': True}, thorough_opts={'preempt': 4, 'races': True}),
    R('c18_trio', ['moved', 'refiltered', 'plain'], {'n': 2, 'logs': 2}, {'n': 2, 'logs': 2}, opts={'preempt': 2, 'races': True}, thorough_opts={'preempt': 3, 'races': True}, name='c18_trio_long'),
    R('c18_visible', ['after', 'during'], opts={'preempt': 4, 'races': True}, thorough_opts={'preempt': 6, 'races': True}),
    R('c18_cross', ['done'], opts={'preempt': 4, 'races': True}, thorough_opts={'preempt': 6, 'races': True}),
    R('c18_reject', ['accept', 'reject'], opts={'preempt': 4, 'races': True}, thorough_opts={'preempt': 6, 'races': True}),
], 'three threads: one logging, two others each logging, replacing the filter, move-assigning or using a scope (once or twice), every interleaving with up to 3 (long variant 2; thorough 4 and 3) preemptions; two threads: updates followed by logging, moves in both directions, rejecting filters, 4 (thorough 6) preemptions; data races by happens-before on every memory access', [
    'interleavings are sequentially consistent; reorderings allowed by weaker memory orders show only as races',
    'records are concrete here: their contents are covered by C01-C03'])

C('C19', 'c19.cpp', [
    R('c19_file', ['two', 'three'], {'n': 3, 'more': 2}, {'n': 4, 'more': 2}, opts={'preempt': 4, 'races': True}, thorough_opts={'preempt': 5, 'races': True}),
    R('c19_file', ['two'], {'n': 1, 'more': 1, 'pad': 9000}, {'n': 2, 'more': 1, 'pad': 9000}, opts={'preempt': 2, 'races': True}, name='c19_file_big'),
    R('c19_rotate', ['moved', 'kept'], {'n': 2}, {'n': 2}, opts={'preempt': 3, 'races': True}, thorough_opts={'preempt': 4, 'races': True}),
    R('c19_console', ['coloured', 'plain'], {'n': 2}, {'n': 3}, opts={'preempt': 4, 'races': True}, thorough_opts={'preempt': 5, 'races': True}),
    R('c19_tcp', ['two', 'three'], {'n': 2, 'more': 2, 'splits': 1}, {'n': 2, 'more': 2, 'splits': 2}, opts={'preempt': 3, 'races': True}, thorough_opts={'preempt': 4, 'races': True}),
    R('c19_pipeline', ['file', 'console'], {'n': 2}, {'n': 2}, opts={'preempt': 3, 'races': True}, thorough_opts={'preempt': 4, 'races': True}),
], 'two threads of up to 3 (thorough 4) lines or three of 1 to one file sink with every flush threshold of 0-2 and with or without rotation, each line of 3 bytes, one symbolic, and of 9 KB once; a third thread removing or replacing the file meanwhile; two console sinks of three kinds, coloured or not, on one terminal; two or three threads on one TCP sink with up to 1 (thorough 2) short writes; two threads logging through one logger with each formatter into a file or the console; every interleaving with up to 4 (thorough 5) preemptions (2-3 for the long ones) and data-race detection', [
    'interleavings are sequentially consistent; system calls and stdio calls on one stream are atomic',
    'the file system and the terminal are models: files as byte strings behind inodes'])

C('C20', 'c20.cpp', [
    R('c20_tcp', ['recovered', 'delivered', 'failed', 'reused', 'other'], {'n': 3, 'faults': 3, 'splits': 1, 'len': 2}, {'n': 4, 'faults': 3, 'splits': 2, 'len': 3}),
    R('c20_large', ['done'], {'splits': 2}, {'splits': 3}),
    R('c20_udp', ['sent', 'failed', 'refused', 'done'], {'n': 3, 'faults': 2, 'len': 3}, {'n': 4, 'faults': 3, 'len': 4}),
    R('c20_udp_large', ['fits', 'too large']),
    R('c20_port', ['accepted', 'rejected']),
    R('c20_config', ['accepted', 'rejected']),
], 'TCP: 3 (thorough 4) emits of 0 to 2 (3) arbitrary bytes, up to 3 faults (name resolution, socket, connect, write; also writes that would block) at every place, up to 1 (2) short writes with every split, 1-2 resolved addresses of either family; messages around 64 KiB and of 140000 bytes. UDP: 3 (4) emits of 0 to 3 (4) arbitrary bytes with up to 2 (3) faults, and around the datagram limit. All 64-bit port values, hosts of 1-3 arbitrary bytes, every other type of host and port', [
    'boost::asio is executed as it is; the system calls below it are modelled (sockets, connect, send, resolver), EINTR and timeouts excepted'])
