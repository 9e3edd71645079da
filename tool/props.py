#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, st, over, text, why, files, mech, state=None, observe=None, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, st=st, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note, na=na))


AI = 'abstract interpretation of LLVM IR against per-function contracts'
NOTE = 'Every path partition of the public functions is interpreted abstractly from an arbitrary valid state; a report is an obligation that is not implied on a feasible partition with no imprecise fact involved. Trusted: the interpreter, its models of GLib/libc functions and the LLVM front end.'

p('C01', 'Reference counts are atomic and the last release frees everything exactly once',
  'Every reference counted object the library hands out is destroyed, with everything it owns, by exactly the release that drops its last reference and never by an earlier one. Taking and dropping references is atomic, so that this holds when threads do it concurrently, and no function touches an object after it has dropped its reference to it; a release or addition of a reference on NULL does nothing.',
  ['schedules', 'histories'], 'all sequences and interleavings of ref/unref calls on every object type',
  'Tests run one thread and a few ref/unref orders; a plain increment or an extra release on one path is invisible to them.',
  ['src/gutil_ring.c', 'src/gutil_ints.c', 'src/gutil_intarray.c', 'src/gutil_idlequeue.c', 'src/gutil_idlepool.c', 'src/gutil_history.c', 'src/gutil_weakref.c', 'src/gutil_inotify.c', 'src/gutil_timenotify.c'],
  [('g_atomic_int_inc / g_atomic_int_dec_and_test on the counter, finalizer called on zero', '*_ref and *_unref functions'), ('finalize', 'static finalize functions')],
  tech=AI + '; the counter is interpreted under interference (every access yields what other threads may have made of it)')
p('C02', 'Nothing leaks, is used after release or released twice',
  'Whatever arguments a public function gets, it accesses only memory that is live and inside of its bounds, everything it allocates is either returned, stored in an object that owns it or released, and nothing is released twice. This includes the paths which refuse the arguments or fail half way.',
  ['inputs', 'histories'], 'every public function, every argument allowed by its documentation, every valid object state',
  'Tests run each function with a handful of inputs; a leak or an overread on a rejected input or a rare state passes unnoticed (the baseline is not even run under a memory checker).',
  ['src/*.c'], [('allocation and release calls paired per path', 'every function in src/'), ('bounds arithmetic before memcpy/memmove and array accesses', 'every function in src/')],
  tech='ownership typestate and bounds checking in an abstract interpreter over every exported function')
p('C03', 'NULL handles are tolerated by the whole API',
  'Every public function which takes an object, string, vector or data handle accepts NULL for it (log modules and formats excepted): it does not crash, has no effect on anything but what it takes over (drain and the shared getter of idle pools use the default or a new pool) and returns its neutral value (NULL, zero, FALSE, -1 or the other argument unchanged). The removal functions accept handler and source identifiers that are zero in the same way.',
  ['inputs'], 'every pointer argument of every public function (except the callbacks and output buffers documented as required)',
  'Tests pass NULL to some of the parameters only, one at a time.',
  ['src/*.c', 'include/*.h'], [('G_LIKELY(ptr) guards', 'entry of every public function')],
  tech=AI + ' with NULL in every subset of the pointer parameters')
p('C04', 'Callbacks may call back into the object that runs them',
  'A callback (handler, idle function, destroy function) may add, remove, cancel, clear, drain or release (while the object is referenced by somebody) on the very object that is invoking it without corrupting memory, without any callback being run or any element being destroyed twice. While a destroy function runs, the element passed to it is no longer reachable through the object.',
  ['histories', 'inputs'], 'every mutation of the object by every callback invocation, at any position of the iteration',
  'Tests use callbacks that do nothing, or one fixed nested call.',
  ['src/gutil_ring.c', 'src/gutil_idlequeue.c', 'src/gutil_idlepool.c', 'src/gutil_inotify.c', 'src/gutil_timenotify.c'],
  [('entries unlinked before the callback, reference held around dispatch', 'functions that invoke callbacks')],
  tech=AI + ', with every sequence of operations (up to a bound) performed by the callbacks themselves')
p('C05', 'Idle queue runs each accepted callback once, in order, or cancels it once',
  'Callbacks queued on an idle queue run on a later main loop iteration in the order they were added, each exactly once, after which their destroy function is called exactly once. Cancelling by tag removes the first pending callback with that tag and only it, cancelling all (or releasing the last reference) removes all of them; a removed callback never runs, its destroy function does, and no idle source is left behind for an empty or released queue.',
  ['histories', 'schedules'], 'all sequences of add, cancel, run, free and unref',
  'Tests add at most a few callbacks; order after cancelling from the middle or the tail, and leftover sources, depend on the list shape.',
  ['src/gutil_idlequeue.c'], [('singly linked list with first/last pointers', 'gutil_idle_queue_add_tag_full, gutil_idle_queue_cancel_tag'), ('idle source id', 'gutil_idle_queue_run, gutil_idle_queue_cancel_all')],
  tech=AI + ' over symbolic linked lists')
p('C06', 'Idle pool releases each pooled reference exactly once',
  'Every pointer added to an idle pool is passed to its release function exactly once - when the pool is drained, by the next idle callback, or when the pool is destroyed or released - in the order of addition. The add functions return their argument and hold the reference they were given, the ref-adding variants take one of their own; the shared pool is created once, is forgotten when it goes away, and no idle source outlives the pool.',
  ['histories'], 'all sequences of add, drain, destroy and unref',
  'Tests add a few items and drain once; per-thread and shared lifetime and items added while draining are sampled only.',
  ['src/gutil_idlepool.c'], [('item list and idle source', 'gutil_idle_pool_add, gutil_idle_pool_drain'), ('shared pointer cleared on finalize', 'gutil_idle_pool_get, gutil_idle_pool_finalize')],
  tech=AI + ' over symbolic linked lists')
p('C07', 'Ring buffer keeps order, size and maximum size',
  'A ring buffer behaves as a sequence: put appends, put_front prepends, get and get_last remove and return the first and the last element, drop functions remove from the requested end, data_at and flatten show the elements in order, and compact and reserve change nothing but the memory use. The number of elements never exceeds the maximum size, puts are refused only at that limit, and lowering the limit removes the oldest elements.',
  ['histories', 'inputs'], 'every internal layout (wrapped or not, full, empty, any capacity) and every argument',
  'Tests drive a few layouts; wrap-around combined with reallocation, full buffers or reserved capacity above the limit are different states.',
  ['src/gutil_ring.c'], [('start/end indices modulo the allocated size', 'gutil_ring_put, gutil_ring_get, gutil_ring_reserve, gutil_ring_flatten, gutil_ring_compact'), ('limit check', 'gutil_ring_reserve, gutil_ring_can_put')],
  state=[('start, end', '-1 when empty, equal when full', 'struct gutil_ring')])
p('C08', 'Ring buffer destroys exactly the elements it removes itself',
  'With a destroy function set, clear, the drop functions, lowering the maximum size and the last unref call it exactly once for every element they remove, in order, and for no other element. Getting elements, putting, flattening, compacting and reserving never call it.',
  ['histories', 'inputs'], 'every layout, element count, drop count and limit',
  'Tests check the number of calls for a couple of layouts, not which elements.',
  ['src/gutil_ring.c'], [('free_func loops', 'gutil_ring_clear, gutil_ring_drop, gutil_ring_drop_last, gutil_ring_unref, gutil_ring_set_max_size')])
p('C09', 'Decoders stay inside the input and change nothing when they fail',
  'The integer and TLV decoders never read outside of the given range, accept only input which is completely inside of it, and on success advance the range by exactly the number of bytes that make up the decoded entry. When they fail, the range and the output value are left as they were.',
  ['inputs'], 'every byte sequence of every length, including truncated and overlong ones',
  'Tests decode a few dozen fixed byte strings.',
  ['src/gutil_datapack.c'], [('range checks before each byte', 'gutil_signed_mbn_decode, gutil_unsigned_mbn_decode, gutil_tlv_decode, gutil_tlvs_decode')])
p('C10', 'Multi-byte integers: size, encoding and decoding agree',
  'For every 64-bit value the computed size is the smallest number of 7-bit groups that holds it (and its sign), the encoder writes exactly that many bytes, most significant group first, with the continuation flag on all but the last, and the decoder returns the original value from them. Encoding with a larger given size pads with the sign, and overlong input that does not fit into 64 bits is rejected.',
  ['inputs'], 'all 2^64 signed and unsigned values and all encodings up to ten bytes',
  'Tests use about twenty values.',
  ['src/gutil_datapack.c'], [('shift/mask loops', 'gutil_*_mbn_size, gutil_*_mbn_encode2, gutil_*_mbn_decode')])
p('C11', 'TLV size, encoding and decoding agree; duplicate and unknown tags are told apart',
  'The size of an encoded entry equals what the encoder writes and what the decoder consumes, for every non-zero tag up to the maximum signed integer and every length (of entries below 4 GiB), and a zero tag is never accepted. Decoding a list fills in the values of the expected tags and a bit for each, and reports malformed input, a repeated expected tag and an unexpected tag (unless told to skip those) by their own codes, leaving values of absent tags empty.',
  ['inputs'], 'every tag, length, value, tag list and flag combination',
  'Tests use a handful of entries.',
  ['src/gutil_datapack.c'], [('tag/length checks', 'gutil_tlv_size, gutil_tlv_encode, gutil_tlv_decode, gutil_tlvs_decode')])
p('C12', 'Hexadecimal conversions are exact and bounded',
  'Binary to hex conversion writes two digits of the requested case per byte, high nibble first, and hex to binary conversion accepts exactly the even-length non-empty strings of hex digits of either case and inverts it, returning NULL for everything else. The hex dump prints at most sixteen bytes per line, never writes more than its documented buffer size, terminates the line and shows printable ASCII characters as they are and dots for everything else.',
  ['inputs'], 'all strings, lengths (including negative for NUL-terminated input) and byte values',
  'Tests convert a few strings.',
  ['src/gutil_misc.c'], [('nibble tables and length checks', 'gutil_hex2bin, gutil_bin2hex, gutil_hex2bytes, gutil_hexdump')])
p('C13', 'Number parsing accepts exactly the representable numbers',
  'The integer parsers accept a string (surrounded by optional whitespace) only if all of it is a number in the given base which fits into the target type, and then store that number; the unsigned parsers reject negative numbers. Everything else - empty or blank strings, trailing garbage, out of range values - is rejected and leaves the result untouched, and the result pointer is optional.',
  ['inputs'], 'every string, base and the four target types',
  'Tests try a table of strings.',
  ['src/gutil_misc.c'], [('strtol family with errno and end pointer checks', 'gutil_parse_int, gutil_parse_uint, gutil_parse_int64, gutil_parse_uint64')])
p('C14', 'The log gate is consistent: what is reported as enabled is what gets logged',
  'A message reaches a log backend exactly when the query function says logging is enabled for that module and level: the effective level is the first non-inherited level on the chain of parent modules or the default one, and a disabled module is silent. Messages of level "always" pass unless the module is disabled, formatting happens only for messages that pass, and every logging entry point (plain, va_list, dump) obeys the same gate.',
  ['configurations', 'inputs'], 'every module chain, level, flag and configured backend',
  'Tests try a few module/level pairs; the gate is duplicated in several functions that have to agree.',
  ['src/gutil_log.c'], [('gutil_log_check_level / flags', 'gutil_log, gutil_logv, gutil_log_enabled, gutil_log_dump')])
p('C15', 'Log backends format completely, within bounds and in one piece',
  'Each stream backend emits one whole message of prefix, module name and text terminated by a newline, whatever the length of the message, never writes outside of its buffers, never uses message text as a format and keeps messages of different threads apart (no shared static memory). Hidden names, missing names, time stamps and thread identifiers only change the prefix, and temporary memory is released.',
  ['inputs', 'configurations'], 'every message length, name, flag and time stamp configuration',
  'Tests log short messages; the large-message path and prefix truncation depend on sizes.',
  ['src/gutil_log.c'], [('fixed buffer with fallback to heap', 'gutil_log_stdio'), ('syslog/glib back ends', 'gutil_log_syslog2, gutil_log_glib2')])
p('C16', 'Log configuration strings change exactly what they name',
  'A log option of the form "level" or "module:level" with a valid level (name, unambiguous prefix or number) sets that level on the named known module - or the default one - and on nothing else; any other option is rejected with an error and changes nothing. Choosing a backend by name (in any case) switches to it and reports it back, opening the system log exactly when entering and closing it exactly when leaving that backend; unknown names are refused and keep the current backend.',
  ['inputs'], 'every option string and module list',
  'Tests parse a dozen strings.',
  ['src/gutil_log.c'], [('level table lookup', 'gutil_log_parse_option, gutil_log_parse_level, gutil_log_set_type')])
p('C17', 'Mutable int array operations have sequence semantics',
  'Appending, prepending, inserting, removing (by value, position or range), resizing and freeing an int array have exactly the effect of the same operation on a sequence, for every position and count including those beyond the end, and refuse or clip without touching memory outside of the array. The order preserving functions keep the order of the remaining elements, the fast ones only move the last element into the gap, and the sort functions order by value for all values.',
  ['inputs'], 'every array length, position, count and value',
  'Tests use short arrays and small numbers; overflowing position plus count and extreme values are not sampled.',
  ['src/gutil_intarray.c'], [('position clipping and memmove', 'gutil_int_array_insert_vals, gutil_int_array_remove_range'), ('comparators', 'gutil_int_array_sort_*')])
p('C18', 'Immutable int arrays never change and are NULL when empty',
  'An immutable int array has at least one element (functions that would create an empty one return NULL and leave what they were given to the caller), its contents never change while it is referenced, and sub-arrays share and keep alive their parent. Taking the data out returns the caller a private copy or the original buffer when nothing else refers to it; equality, comparison and hashing agree and ordering is total over all values.',
  ['inputs', 'histories'], 'every length, offset, count, free function and value',
  'Tests use arrays of a few small numbers; overflow of offset plus count and comparison extremes are not covered.',
  ['src/gutil_ints.c'], [('gutil_ints_new_with_free_func, gutil_ints_new_from_ints', 'src/gutil_ints.c'), ('unref_to_data shortcut', 'gutil_ints_unref_to_data'), ('gutil_ints_compare, gutil_ints_equal', 'src/gutil_ints.c')])
p('C19', 'String vectors stay NULL-terminated and operations have list semantics',
  'Every string vector operation returns a NULL-terminated vector with exactly the strings (own copies, in order) that the same operation on a list would give, releases the removed ones when asked to, and never loses or shares a string. Lookups return the first or last match or -1, positions out of range are ignored, comparison is element-wise, and sorting and binary search use the same total order.',
  ['inputs'], 'every vector length, position, string and flag',
  'Tests use vectors of two to four strings.',
  ['src/gutil_strv.c', 'src/gutil_misc.c'], [('realloc and move of the tail', 'gutil_strv_add, gutil_strv_addv, gutil_strv_remove_at, gutil_strv_remove, gutil_strv_remove_dups'), ('comparators', 'gutil_strv_sort, gutil_strv_bsearch')])
p('C20', 'Object vectors own one reference per entry',
  'Every operation on a vector of object references returns a NULL-terminated vector which holds exactly one reference for every entry, acquires references for added entries and drops them for removed ones, in order, at any position. Lookups and accessors neither take nor drop references, and out of range positions append or are ignored.',
  ['inputs', 'histories'], 'every vector length, position, object and repetition of objects',
  'Tests use two or three objects.',
  ['src/gutil_objv.c'], [('g_object_ref/unref per entry', 'gutil_objv_new, gutil_objv_insert, gutil_objv_append, gutil_objv_remove, gutil_objv_remove_at')])
p('C21', 'Data comparison, prefix and suffix tests are exact and never overread',
  'Equality, prefix and suffix tests on memory blocks, byte arrays and ranges return TRUE exactly if the bytes in question are the same and the lengths permit it, with empty and NULL data treated as documented by the tests, and never read past the shorter operand. Skipping a prefix moves the range by exactly its length or not at all; views created from strings, byte arrays and ranges have exactly the length of what they view, and copies are independent and of the same length.',
  ['inputs'], 'all contents and length combinations',
  'Tests compare a few short blocks.',
  ['src/gutil_misc.c'], [('length comparison before memcmp', 'gutil_data_equal, gutil_data_has_prefix, gutil_data_has_suffix, gutil_bytes_*, gutil_range_*')])
p('C22', 'Inotify watches dispatch every event to its own watch and clean up',
  'Each event read from the kernel is delivered to the watch with the same descriptor, with its mask, cookie and name, and to no other, and no byte outside of what was read is interpreted. Destroying a watch removes the kernel watch at most once and stops further deliveries to it, also from inside a handler, and the last watch takes down the descriptor, channel and source; a failed initialisation leaves nothing behind.',
  ['inputs', 'histories', 'fault_sequences'], 'every event buffer, order of watch creation and destruction, and failing system call',
  'The test watches one file; buffers with several events, ignored events and failures of the system calls are not produced.',
  ['src/gutil_inotify.c'], [('watch table by descriptor', 'gutil_inotify_read, gutil_inotify_watch_new'), ('shared singleton with reference count', 'gutil_inotify_create, gutil_inotify_unref')])
p('C23', 'Time notifier reports every clock change the kernel signals and cleans up',
  'The time notifier is one shared object while it is referenced; it keeps a timer armed that the kernel cancels when the system time is set, and calls its handlers for every reported change. The last release, a failure to create the timer and an error of its descriptor leave no descriptor, channel or source behind.',
  ['histories', 'fault_sequences'], 'every outcome of the system calls and order of release',
  'There is no test for it at all.',
  ['src/gutil_timenotify.c'], [('timerfd with cancel-on-set', 'gutil_time_notify_set_timer, gutil_time_notify_callback, gutil_time_notify_finalize')])
p('C24', 'History keeps the newest samples inside its window and averages exactly those',
  'An integer history holds the newest samples only, never more than its capacity and never older than its interval relative to the newest one, and replaces the last sample if the time has not changed. The reported interval is the age of the oldest kept sample, and the reported mean (called median in the API) is the area under the line through the samples divided by the time between the first and the last one, computed from exactly those samples without arithmetic overflow for any values (given non-negative times and a window of at most 2^28 time units).',
  ['histories', 'inputs'], 'every capacity, interval, sequence of values and clock readings',
  'Tests add about ten samples with a fake clock.',
  ['src/gutil_history.c'], [('circular sample buffer', 'gutil_int_history_add, gutil_int_history_flush'), ('area under the line through the samples', 'gutil_int_history_median_at')])
p('C25', 'Headers, version data and exported symbols agree',
  'Every function and variable declared in the public headers is defined and exported by the shared library with the declared signature and C linkage; every listed export exists, and nothing outside of the name space of the library is exported. The public headers compile alone and together, in any order and configuration, as C and C++; version macros, run-time version, version string and packaging agree; and the published types, constants and signatures of this interface version do not change.',
  ['programs', 'configurations'], 'every program that includes the headers or links with the library',
  'Tests link statically with a part of the API, in C and one configuration, and use none of the version macros.',
  ['include/*.h', 'src/gutil_version.c', 'libglibutil.ver', 'Makefile'], [('GUTIL_VERSION_ macros', 'include/gutil_version.h'), ('version script', 'libglibutil.ver')],
  tech='compile-fail witnesses (static assertions and syntax checks against the headers) and a cross-check of declarations (clang AST), definitions (LLVM IR) and export patterns',
  note='Decided by the compiler on the current headers and sources; the published interface is the one recorded in specs/witness/abi.c.')
p('C26', 'Weak references never return a dead object',
  'A reference counted weak reference returns either NULL or a strong reference to the object it was last pointed at, never a dead or a different one, and holds no strong reference itself. It can be retargeted at any time and releases its hold on the tracking machinery when it goes away.',
  ['histories', 'schedules'], 'all orders of set, get, object death and release',
  'Tests run a single scenario in one thread.',
  ['src/gutil_weakref.c'], [('GWeakRef init/clear/get/set', 'gutil_weakref_new, gutil_weakref_get, gutil_weakref_set, gutil_weakref_unref')])
p('C27', 'Handlers and sources are disconnected once and their ids forgotten',
  'Disconnecting handlers disconnects each non-zero identifier exactly once and clears it before the destroy notification of the handler can see it, clearing a source removes the one with the stored identifier and zeroes it before anything else can see it, and neither touches anything for zero identifiers. Handler registration needs a function and returns zero if there is none.',
  ['inputs', 'histories'], 'every id array, count and mixture of zero and non-zero entries',
  'Tests use two ids.',
  ['src/gutil_misc.c', 'src/gutil_inotify.c', 'src/gutil_timenotify.c'], [('zeroing the stored id', 'gutil_disconnect_handlers, gutil_source_clear')])
p('C28', 'Byte array concatenation and xor produce exactly the right bytes',
  'Concatenating byte arrays gives the bytes of all of them in order, with no more copying or sharing of references than it says (a single non-empty one may be returned itself with a new reference). Xor of two byte arrays has the length of the shorter operand (an empty one is returned itself with a new reference) and combines the bytes at the same positions, and neither function changes or releases its arguments.',
  ['inputs'], 'every number of arguments, sizes and contents',
  'Tests join a few short arrays.',
  ['src/gutil_misc.c'], [('size summation then copy', 'gutil_bytes_concat'), ('common length loop', 'gutil_bytes_xor')])

p('C29', 'Function-like macros of the headers are right for all arguments',
  'Packing a version into a word and taking it apart are inverse for all versions, the word orders like the versions, and the run-time version is the compiled one. The alignment macros give the next multiple for every value of any integer type that does not overflow, G_CAST finds the containing structure and the verification macros evaluate their argument exactly once in every build (GASSERT not at all when it is compiled out), reporting exactly the failed ones.',
  ['inputs', 'configurations', 'programs'], 'all arguments and the debug and release configurations',
  'No test uses these macros with more than one argument; the release variants are not tested at all.',
  ['include/gutil_version.h', 'include/gutil_macros.h', 'include/gutil_log.h'], [('GUTIL_VERSION_*, G_ALIGN*, G_CAST, gutil_slice_free', 'include/gutil_version.h, include/gutil_macros.h'), ('GASSERT, GVERIFY*', 'include/gutil_log.h')],
  tech='abstract interpretation of LLVM IR of witness functions that expand the macros')

p('C30', 'Log defaults come from the environment, and the description tells what can be configured',
  'When the library is loaded, GUTIL_LOG_DEFAULT_LEVEL sets the default log level (any number from "inherit" up), and GUTIL_LOG_TIMESTAMP and GUTIL_LOG_TID switch the time stamp and the thread id on (positive) or off (zero). The numbers may be decimal, hexadecimal (0x) or octal (0). Variables which are not set, are no numbers or are out of range change nothing, and nothing else is changed. The generated description has a line with number, name and meaning for every level, marks exactly the default one, and lists every given module once, in order.',
  ['inputs', 'configurations'], 'every content of the environment and every list of modules',
  'Tests run in one environment and do not read the description.',
  ['src/gutil_log.c'], [('constructor', 'gutil_log_init'), ('level table', 'gutil_log_description')])

# ---- properties no static argument in reach decides
p('N01', 'Clock changes and file events arrive promptly',
  'A change of the system time or of a watched file is reported to the handlers within the next main loop iteration after the kernel signals it.',
  ['schedules'], 'all timings of kernel and main loop', 'Tests run with one timing.',
  ['src/gutil_inotify.c', 'src/gutil_timenotify.c'], [('IO watches', 'gutil_inotify_create, gutil_time_notify_new')],
  na='Depends on the kernel and on the main loop being run by the application at run time; nothing in the source bounds it. What the code itself does with a delivered event is decided under C22 and C23.')
p('N02', 'Sorting really sorts',
  'After sorting, an int array or string vector is a permutation of its previous contents in non-decreasing (or non-increasing) order.',
  ['inputs'], 'all arrays', 'Tests sort three elements.',
  ['src/gutil_intarray.c', 'src/gutil_strv.c'], [('qsort and GLib sort with a comparator', 'sort functions')],
  na='The permutation is computed by the C library; the part visible in this source - the comparators are total orders, sort and search use the same one, the right array and length are passed - is decided under C17 and C19.')
p('N03', 'Hash values are well distributed',
  'The hash function of immutable int arrays spreads different arrays over the whole range of hash values.',
  ['inputs'], 'all arrays', 'Tests compare a few hash values.',
  ['src/gutil_ints.c'], [('gutil_ints_hash', 'src/gutil_ints.c')],
  na='A statistical property of run-time values, outside of what static analysis decides; that equal arrays have equal hashes is decided under C18.')
p('N04', 'Concurrent log lines are not interleaved by the operating system',
  'Messages logged by several threads or processes into the same file come out line by line.',
  ['schedules'], 'all interleavings of writers', 'Tests log from one thread.',
  ['src/gutil_log.c'], [('single write per message', 'gutil_log_stdio')],
  na='Atomicity of the writes is decided by stdio buffering and the kernel; the structural part (one output call per message with the newline included) belongs to C15.')

CLAIMED = set(l.split()[0] for l in open(os.path.join(TOP, 'tool', 'claimed.txt')) if l.strip())


def main():
    with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
        for q in P:
            a = dict(files=q['files'], mechanism=[dict(name=n, where=w) for n, w in q['mech']])
            if q['state']:
                a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in q['state']]
            d = dict(id=q['id'], title=q['title'], statement=q['st'], quantifier=dict(over=q['over'], text=q['text']), why_tests_cant=q['why'], anchors=a)
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for q in P:
        if q['na'] or q['id'] not in CLAIMED:
            na.append(dict(property=q['id'], reason=q['na'] or 'no check built yet'))
        else:
            cmd = 'python3 engine/check.py %s' % q['id']
            checks.append(dict(property=q['id'], quick_cmd=cmd, thorough_cmd=cmd + ' --thorough', technique=q['tech'] or AI, level='other', level_note=q['note'] or NOTE))
    m = dict(version=1, setup_cmd='sh tool/build.sh', checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(TOP, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(TOP, 'MANIFEST.json'), 'a').write('\n')


main()
