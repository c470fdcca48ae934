"""The checks: per property, the harness entries to run, their bounds and what they assume."""

COMMON_ASSUMPTIONS = [
    "The encoding is the LLVM IR clang 18 emits for the harness and the headers under /repo (x86-64, C++17, no exceptions, before optimisation), regenerated on every run; the compiler front end and the executor in engine/ are trusted, the latter cross-checked by replaying sampled paths natively.",
    "libc and libstdc++ out-of-line functions are the models in engine/runtime.cpp; operator new and malloc succeed unless the harness says otherwise.",
    "Memory is sequentially consistent at the granularity of the IR's atomic operations; weaker orders are covered by happens-before race detection only.",
]

PROPS = {}


def prop(pid, runs, bounds, outside='', assumptions=(), technique=None, note=None):
    # Debug and release (NDEBUG) builds alike, unless a run says which.
    both = []
    for r in runs:
        both += [r] if 'ndebug' in r else [dict(r, ndebug=False)] if r.get('finding') else [dict(r, ndebug=False), dict(r, ndebug=True)]
    PROPS[pid] = dict(runs=both, bounds=bounds, outside=outside, assumptions=list(assumptions), technique=technique, note=note)


def R(src, entry, **kw):
    return dict(src=src, entry=entry, **kw)


prop('C01', [R('c01.cpp', e) for e in ('leftmost32', 'leftmost64', 'log2', 'rightmost', 'poweroftwo')],
     'Every non-zero 32-bit or 64-bit word (every 64-bit word for the power-of-two test); no bound.',
     'Zero operands (the functions require non-zero). The MSVC branches.')

prop('C02', [R('c02.cpp', e) for e in ('add_safe8', 'add_safe16', 'add_safe32', 'add_safe64', 'mul_safe8', 'mul_safe16', 'mul_safe32',
                                       'mul_safe64', 'mul_safeptr', 'try_add32', 'try_add64', 'try_mul64', 'try_alias')],
     'Every pair of operands at every width from 8 to 64 bits; no bound. (The 64-bit products are decided by cvc5 with an integer encoding.)',
     'The MSVC branches.')

prop('C03', [R('c03.cpp', e) for e in ('align', 'align_sym', 'aligned_base', 'is_aligned', 'tags1', 'tags2', 'tags3', 'tags4', 'tags5', 'tags12', 'tags30')],
     'Every 64-bit count or address and every power-of-two alignment from 1 to 2^63 (align_sym: 32-bit counts with a symbolic alignment); every tag of 1, 2, 3, 4, 5, 12 and 30 bits.',
     'Counts whose aligned value exceeds 64 bits; more than 30 tag bits.')

prop('C04', [R('c04.cpp', e) for e in ('map_history', 'map_adders', 'set_history', 'any_hash', 'reserved_hash')]
     + [R('c04.cpp', 'chains', params={'chain': 4, 'cops': 2}, thorough=dict(params={'chain': 5, 'cops': 2}))], 'Histories of up to 4 operations over 3 keys from an empty table of minimum capacity, every operation chosen freely (insert, remove by key, remove by result, clear, erase while iterating), values arbitrary 32-bit words, the hash of each key an arbitrary word that falls in one of a few buckets (so that colliding, wrapping and reserved hash values 0, 1 and their images all occur); two keys with fully arbitrary 32-bit hashes; both HashMap and HashSet. From 3 (thorough: 4) keys in one probe run of three shapes with an arbitrary subset removed again, every 2 further operations.',
     'Longer histories and more keys (C05 covers growth with fixed shapes of history); a user hash or match function that is not a function of its argument; misuse the headers forbid (using a Result or Insert after the table changed).')

prop('C05', [R('c05.cpp', e) for e in ('grow_shrink', 'churn', 'up_and_down', 'grow_any_hash')] + [R('c05.cpp', 'large', max_steps=40000000), R('c05.cpp', 'huge', max_steps=400000000, max_alloc=8 << 20), R('c05.cpp', 'huge_set', max_steps=400000000, max_alloc=8 << 20)], "Up to 42 keys through two growths, shrinks and clean-ups, with five families of hash (spread, one bucket, all equal, arbitrary base with an odd stride, arbitrary words for two keys); up to 50 (thorough: 120) insert/remove pairs beside 0 to 12 resident keys; two keys with any hash pair that meets at the growth boundary; 300 known keys (110 where all collide) up to 512 slots and down again with values of three of them arbitrary; 66000 known keys in a map and in a set. Every look-up's probe loop is executed until it ends; a run that does not end within the step budget is reported.",
     'Arbitrary interleavings of more operations than these shapes; tables beyond 64 slots with arbitrary hashes. Proportionality is measured against the largest number of entries held at once (8 slots per entry, or twice the requested minimum capacity).')

prop('C06', [R('c06.cpp', e) for e in ('map_lifetime', 'set_resize', 'table_resize', 'small_elements', 'empty_containers', 'large')], 'Histories of up to 4 operations (insert in three ways, remove, clear, erase while iterating, move of the container) over 2 keys with object-valued keys and values, then destruction; resizes up and down for HashSet and a raw HashTable with 12 to 34 elements; one-byte and larger elements; 280 elements in a set or a raw table; empty, unopened and moved-from containers.',
     'Longer histories; element types whose constructors throw.')

prop('C07', [R('c07.cpp', e) for e in ('map_refused', 'set_refused', 'init_capacity', 'array_any_size', 'array_small', 'array_refused')] + [R('c07s.cpp', e) for e in ('tables', 'arrays')], 'Every subset of the first allocations refused in histories with two growths and a shrink; every 32- or 64-bit initial capacity; every array length (64-bit) with the allocator recording what it was asked for; refused array allocations in every constructor and assignment; with the default (system) policy, the first refusal at each of the first 5 requests of a table or 3 of an array.',
     "Growth past the maximum capacity (2^27 slots and more cannot be held in the executor's memory; only the code path that reports it at init() is covered). Allocators that misbehave otherwise.")

prop('C08', [R('c08.cpp', e) for e in ('char_hashes', 'int32_hash', 'int64_hash', 'pointer_hash', 'combine', 'long_strings')] + [R('c08.cpp', 'huge_strings', max_steps=400000000)], 'Every byte string up to 10 bytes (thorough: 14) at every alignment offset and every split into two pieces, strings of 25 lengths from 15 to 70535 bytes with arbitrary first or last bytes, every 32- and 64-bit integer and pointer, against independently written definitions.',
     'Longer strings of arbitrary bytes; big-endian hosts.')

prop('C09', [R('c09.cpp', e) for e in ('plain', 'virt', 'impl', 'threadsafe', 'threadsafe_virtual', 'conversions')] + [R('c09.cpp', 'crowds', max_steps=40000000)], 'Histories of up to 3 operations (thorough: 4) over 2 reference slots and up to 8 objects that may hold references to each other, every operation chosen freely among construction, copy, move, assignment from pointers, references, nested references and already-adopted ones, adoption, forget/take, destruction; for all five counting bases, debug and release counters; 300 and 66000 references to one object.',
     'Longer histories and more slots; objects whose destructors resurrect them.')

prop('C10', [R('c10.cpp', e, sched=True) for e in ('plain2', 'virt2', 'fwd2', 'release_result')] + [R('c10.cpp', e, sched=True, pre=4, thorough=dict(pre=99)) for e in ('plain3', 'virt3')] + [R('c10.cpp', 'crowds', sched=True, max_steps=400000000)], 'Two threads with each of 4 short programs of retain, copy, move, release (3 programs with three threads) on one object, plain, virtual and forwarding counters, debug and release builds; every interleaving of their atomic operations and shared memory accesses with two threads, those with at most 4 preemptions (thorough: every one) with three; 300 and 66000 references dropped one at a time, one of them by another thread.',
     'More than three threads or longer programs. Memory is sequentially consistent; weaker orders are covered by happens-before race detection, which honours the memory orders given.')

prop('C11', [R('c11.cpp', e, sched=True) for e in ('pair_virtual', 'counting_under_lock')] + [R('c11.cpp', 'from_destructor', sched=True, pre=2, thorough=dict(pre=99))]
     + [R('c11.cpp', 'pair', sched=True, params={'progs': 3}), R('c11.cpp', 'pair', sched=True, pre=3, params={'progs': 6}, thorough=dict(pre=6)),
        R('c11.cpp', 'three', sched=True, pre=2, params={'progs3': 3}, thorough=dict(pre=3, params={'progs3': 6}))], 'Objects whose destructors read or replace the reference, beside another thread with at most 2 preemptions (thorough: any); Two threads with each of 3 programs of get/set under every interleaving; 6 programs with at most 3 (thorough: 6) preemptions; three threads with 3 programs and at most 2 (thorough: 3, 6 programs) preemptions.',
     'More threads or longer programs. Blocking means: some thread neither finishes nor can ever make progress once the others have finished.')

prop('C12', [R('c12.cpp', e) for e in ('lists', 'lists_by_node', 'long_lists')] + [R('c12.cpp', 'huge_lists', max_steps=400000000, max_alloc=8 << 20)] + [R('c12.cpp', 'reuse_after_list', ndebug=False)]
     + [R('c12.cpp', 'length_after_node_removal', finding=True)], 'Histories of up to 5 operations over 3 nodes and 2 lists, each operation chosen freely (append, remove through the list, erase through a forward or reverse iterator, removal by the node, re-insertion), node contents arbitrary; lists of 20, 300 and 66000 nodes with most or all taken out again; debug and release builds.',
     "Longer histories; destruction of a non-empty list in release builds leaves the nodes' links as they are, which the header documents.")
prop('C13', [R('c13.cpp', e) for e in ('history', 'arguments', 'categories', 'kept_arguments', 'owned_by_target', 'many_arguments', 'nested_wrappers', 'state')], 'Histories of up to 3 operations over 2 wrappers, each chosen freely (assignment of four kinds of callable, of const and non-const lvalues and of rvalues, of null, construction by copy and move), callable state and arguments arbitrary; signatures with values, references, move-only arguments and results, one with twelve arguments of different kinds; wrappers nested up to four deep; histories of 4 calls, copies and moves of three wrappers whose callables have state that calls change.',
     'Longer histories; calling an empty wrapper (a precondition).')

prop('C14', [R('c14.cpp', e) for e in ('sizes', 'owners', 'large_callables')] + [R('c14.cpp', 'history', params={'ops': 4}, thorough=dict(params={'ops': 5}))] + [R('c14.cpp', 'copy_lvalue_inline', finding=True)],
     'Callables of 1 to 24 bytes, captures included, stored inline exactly when they fit; histories of up to 4 (thorough: 5) operations over up to 3 wrappers (construct from small and large callables, copy, move, assign, self-assign, clear, swap through moves, call, destroy), object-valued callables that know whether they are alive and where; callables owning heap memory; callables of seven sizes up to 5000 bytes.',
     "Longer histories; callables with alignment beyond a pointer's.")
prop('C15', [R('c15.cpp', 'fill_drain', params={'n': 6}, thorough=dict(params={'n': 7}))] + [R('c15.cpp', e) for e in ('known_order', 'mixed', 'stateful_order', 'move_only', 'default_order', 'many')] + [R('c15.cpp', 'huge', max_steps=400000000, max_alloc=8 << 20)],
     'Up to 6 (thorough: 7) elements with arbitrary 32-bit keys pushed and drained; a heap of 15 known keys pushed in four arrangements with pops in between; histories of up to 6 pushes and pops over 4 elements with arbitrary keys, for copyable, move-only and default-ordered elements and for a comparator with state and ties; 66, 270 and 66000 known keys with one arbitrary key among them.',
     'More elements with arbitrary keys; comparators that are no strict weak order.')

prop('C16', [R('c16.cpp', e) for e in ('insert_at', 'remove_at', 'erase_if', 'move_extend', 'deque_ends', 'edits', 'plain_types')] + [R('c16.cpp', 'huge', max_steps=400000000, max_alloc=8 << 20)],
     "Vectors of up to 4 elements (deques of up to 6) with arbitrary values, every position, every subset erased, insertion of the vector's own elements, sources that are empty or moved from; sequences of up to 4 edits of a vector of move-only elements; one edit of vectors of 1 to 100 plain elements of three sizes and of 66000 elements; object-valued elements that know whether they are alive.",
     'Longer sequences of arbitrary elements; positions outside the vector and extending a vector by itself (preconditions).')
prop('C17', [R('c17.cpp', e) for e in ('construct', 'assign', 'scalars', 'equality', 'longer')] + [R('c17.cpp', 'huge', max_steps=400000000, max_alloc=8 << 20)],
     'Arrays of up to 3 elements constructed in every way; up to 3 assignments of every kind between two arrays of up to 2 elements, themselves included; plain types of two sizes with arbitrary contents; comparison of types whose equality is not that of their bytes; lengths around powers of two up to 257, and 66000, with one arbitrary element.',
     "Arbitrary contents of longer arrays (sizes of any magnitude are C07's); index out of range (a precondition).")
prop('C18', [R('c18.cpp', e) for e in ('history', 'alignment', 'nested', 'plain_types', 'wide_values')],
     'Histories of up to 4 operations over 2 optionals of an object type (construction, copy, move, assignment from values and optionals, self-assignment, clearing, reading, destruction) with arbitrary values; types of every alignment from 1 to 64; nested and move-only optionals and assignment from inside the held value; histories of 3 operations over 2 optionals of plain types; types of seven sizes up to 5000 bytes, in containers too.',
     'Longer histories; reading an empty optional and init() from the contents of the optional itself (preconditions).')
prop('C19', [R('c19.cpp', e) for e in ('guards', 'guard_lifetime', 'save_and_set', 'return_and_void', 'odd_values', 'deep_nesting')]
     + [R('c19.cpp', 'stack_linked')],
     'Every nesting of three guards, each cancelled or not and moved or not; saved locations nested up to three deep with arbitrary values; stack-linked lists up to depth 4; all three nested 16 deep in one chain, values of 1200 bytes; debug and release builds.',
     'Deeper nesting.')

prop('C20', [R('c20.cpp', e, defs=d) for d in ([], ['-DKE_ALLOW_STD_CXX']) for e in ('flags8', 'flags16', 'flags32', 'flags64', 'flags_with_operators', 'enum8', 'enum16', 'enum32', 'enum64')],
     'Every value of every underlying type of 8, 16, 32 and 64 bits, signed and unsigned, scoped and unscoped, and every flag; no bound. With and without KE_ALLOW_STD_CXX.',
     'Enumerations over bool.')
prop('C21', [R('c21.cpp', e) for e in ('classify32', 'classify64', 'modulo32', 'modulo64')],
     "Every 32- and 64-bit floating-point bit pattern; for the modulo, every pair of patterns, the C library's remainder being any function that obeys what Annex F fixes of it.",
     "The C library's own rounding of fmod; extended and decimal formats.")
prop('C22', [R('c22.cpp', e) for e in ('to_duration', 'to_point_ns', 'to_point_us', 'to_point_ms', 'to_point_ticks', 'to_point_s', 'from_epoch')],
     'Every timespec whose parts and total fit in 64-bit nanoseconds and every 64-bit duration or point of clocks counting in nanoseconds, microseconds, milliseconds, 100 ns and seconds; no further bound.',
     'Values whose conversion overflows 64-bit nanoseconds; clocks of other periods.')

prop('C23', [R('c23.cpp', e) for e in ('copy', 'copy_n', 'copy_n_unterminated', 'append', 'beyond_untouched')] + [R('c23.cpp', 'long_copy', max_steps=400000000)],
     'Every source of up to 5 arbitrary bytes, every destination size up to 7 with arbitrary old contents, every count and every already present prefix; sources and sizes around 16, 64, 256, 1024, 4096, 32768 and 65536 bytes with a few arbitrary ones.',
     'Longer strings of arbitrary bytes; appending to an unterminated destination (a precondition); overlapping buffers.')
prop('C24', [R('c24.cpp', e) for e in ('allocating', 'formatter_error', 'buffer_form', 'path_form', 'buffer_error', 'real_formatter', 'system_error')] + [R('c24.cpp', e, max_steps=400000000) for e in ('long_allocating', 'long_buffer', 'system_error_large')],
     "A formatter that yields any text of up to 6 arbitrary bytes (zero included), or fails, for every buffer size up to 8, in all six forms; text lengths around 16, 64, 128, 256, 512, 1024, 4096, 32768 and 65536; the real formatter's model on %s and %d; every error code and message of up to 5 bytes, delivered in either of the two ways the GNU strerror_r may; messages of up to 63 bytes into buffers of up to 131072.",
     "Longer arbitrary texts. What the formatter itself produces is the C library's matter; the contents after a formatter error are unspecified (bounds and termination are checked).")
prop('C25', [R('c25.cpp', e) for e in ('split_zeros', 'split1', 'split2', 'split3', 'join', 'long_pieces')] + [R('c25.cpp', 'many_pieces', max_steps=400000000, max_alloc=8 << 20)],
     "Every string of up to 5 arbitrary bytes with every separator of 1 or 2 bytes (6 bytes for separators of 3), std::strings of up to 4 bytes with embedded zeros, joins of up to 3 pieces of up to 2 bytes with embedded zeros; 2 to 66000 pieces of up to 33000 bytes with separators of up to 40.",
     'Longer strings of arbitrary bytes; the empty separator (a precondition).')
prop('C26', [R('c26.cpp', e) for e in ('cases', 'other_locale', 'starts', 'ends', 'embedded', 'caseless')] + [R('c26.cpp', e, max_steps=400000000) for e in ('long_cases', 'long_affixes', 'long_caseless')],
     'Every string of up to 5 arbitrary bytes (prefix and suffix tests: up to 4 against up to 4, zero bytes included; caseless comparison: 3 against 3), and ones of up to 70000 bytes with a few arbitrary bytes; the C locale and every locale that pairs two further bytes as letters of different case.',
     'Longer arbitrary strings; caseless comparison in locales other than "C".')

prop('C27', [R('c27.cpp', 'one', params={'inl': i, 'help': h, 'slash': s, 'len': 6}, thorough=dict(params={'len': 7})) for i in (0, 1) for h in (0, 1) for s in (0, 1)]
     + [R('c27.cpp', 'stems', params={'inl': i, 'slash': s}, thorough=dict(params={'len': 4})) for i in (0, 1) for s in (0, 1)]
     + [R('c27.cpp', 'two', params={'inl': i, 'slash': s}, thorough=dict(params={'len2': 5})) for i in (0, 1) for s in (0, 1)]
     + [R('c27.cpp', 'several', params={'inl': i, 'slash': s}) for i in (0, 1) for s in (0, 1)]
     + [R('c27.cpp', e) for e in ('entry_points', 'static_options', 'many')]
     + [R('c27.cpp', e, max_steps=400000000, max_alloc=8 << 20) for e in ('huge', 'huge_line')],
     'Every configuration of inline values, slashes, extra arguments, passthrough, help and positionals over a parser with ten options, one or more of every kind; one argument of up to 6 arbitrary bytes (thorough: 7), one of a known stem and up to 3 (4) arbitrary bytes, two of up to 2 and 3 (5) arbitrary bytes, and every sequence of 3 (thorough: 4) drawn from 14 tokens, one of them an arbitrary byte; every entry point; options registered statically; 80 options given at once; names of nine lengths from 254 to 70000 bytes, values of 70000 and a line of 66000 arguments.',
     "Longer arbitrary arguments and sequences; IOption subclasses of the user's own; two options with the same form.")
prop('C28', [R('c28.cpp', 'history', params={'pass': p, 'extra': x, 'inl': 0, 'slash': 0}, thorough=dict(params={'after': 2})) for p in (0, 1) for x in (0, 1)]
     + [R('c28.cpp', 'against_fresh', params={'pass': p, 'extra': x, 'inl': 0, 'slash': 0}) for p in (0, 1) for x in (0, 1)]
     + [R('c28.cpp', 'everything_set', params={'pass': p, 'inl': 0}) for p in (0, 1)]
     + [R('c28.cpp', 'repeatedly', params={'pass': p, 'extra': x, 'inl': 0, 'slash': 0}) for p in (0, 1) for x in (0, 1)],
     'Every pair of an earlier command line of 2 and a later one of 1 tokens out of 14 (thorough: 2 and 2), every configuration, against the documented grammar and against a freshly built parser, usage output included; five resets in between; a line that sets every option and positional, a static option and extras, ended in 4 ways, followed by one of 12 tokens.',
     'Longer command lines; different command lines between several resets.')

prop('C29', [R('c29.cpp', e) for e in ('integers', 'limits', 'huge', 'booleans', 'strings', 'repeated_integers')] + [R('c29.cpp', 'long_strings', max_steps=30000000)],
     'Every text of up to 4 arbitrary bytes; every text of a sign, zeros, one of nine leading digit strings around the limits of 32 and 64 bits and up to 3 arbitrary digits; numbers beyond 64 bits with an arbitrary byte after them and any errno before; every text of up to 5 bytes for booleans and 8 for strings; strings of eleven lengths from 15 to 70000 bytes with arbitrary first and last bytes. An integer text is read as strtol reads it: leading blanks and a sign are allowed.',
     'Other value types a user may define a policy for.')
prop('C30', [R('c30.cpp', 'sequences', params={'pass': p, 'extra': x, 'slash': l, 'args': 3}, thorough=dict(params={'args': 4})) for p in (0, 1) for x in (0, 1) for l in (0, 1)] + [R('c30.cpp', e) for e in ('verbatim', 'many')] + [R('c30.cpp', 'huge', max_steps=400000000, max_alloc=16 << 20)],
     'Every sequence of 3 (thorough: 4) arguments out of 7 tokens, one of them up to 2 arbitrary bytes, under every configuration of collection, passthrough and slashes; longer texts with up to 5 arbitrary bytes; 150 and 65540 arguments of both kinds.',
     'Longer arbitrary sequences.')

prop('C31', [R('c31.cpp', e, sched=True) for e in ('ints', 'pointers', 'words', 'bytes', 'bits', 'refused', 'refused_set', 'refused_race', 'several')]
     + [R('c31s.cpp', e) for e in ('single_int', 'single_pointer')],
     'Two threads (and the main one) with each of 4 programs of reading, storing and allocating under every interleaving, values arbitrary, for integers of five widths and pointers; up to two failures to obtain a slot, alone and while threads race; several variables at once; the single-threaded mode.',
     'More threads or longer programs; failure of pthread_setspecific; the Windows branch.')
prop('C32', [R('c32.cpp', e, sched=True) for e in ('two', 'alone', 'two_mutexes')]
     + [R('c32.cpp', 'three', sched=True, params={'progs': 5}, thorough=dict(params={'progs': 8}))],
     'Two threads with each of 8 programs and three with each of 5 (thorough: 8) programs of lock, try_lock, unlock, guards and assertions, under every interleaving, debug and release builds; every history of 6 operations of one thread; two mutexes shared with another thread running each of 3 programs.',
     'More threads or longer programs. In release builds the assertion is compiled out by design.')
prop('C33', [R('c33.cpp', e, sched=True) for e in ('function', 'objects', 'kinds', 'pair', 'refused_name')],
     "Functions, function objects, lambdas, member functions and move-only, object-valued and string arguments with arbitrary values and captures, names of 0 to 3 arbitrary bytes and of 15, the caller's name and arguments destroyed before the thread runs, under every interleaving; two named threads at once; names the system refuses, of 16 to 300 bytes.",
     'What name a thread has when the system refuses the one given; the macOS and Windows branches.')

prop('C34', [R('c34.cpp', e) for e in ('refused', 'direct', 'names', 'long_texts', 'refused_large')] + [R('c34.cpp', 'history', thorough=dict(params={'ops': 5}))],
     'Every message of up to 5 arbitrary bytes into every buffer size up to 7; every history of 4 (thorough: 5) operations over 2 references (open, share, drop, move, look up), handles and addresses arbitrary; paths and symbols of up to 3 arbitrary bytes, and of up to 590 with one arbitrary byte; messages of up to 690 bytes into buffers of up to 131072.',
     'The Windows branch; what the system loader itself does.')
prop('C35', [R('c35.cpp', e) for e in ('queries', 'create')],
     'Every file mode, error and existence, the path being a link or not, paths of up to 4 arbitrary bytes and of 255 to 4100 bytes, every set of permission bits; no further bound.',
     'What the system itself does; the Windows branch.')
prop('C36', [R('c36.cpp', e) for e in ('conditions', 'fractions', 'convertible', 'statement', 'sequence')] + [R('c36m.cpp', 'shims')],
     "Every value of boolean, 32- and 64-bit, pointer, floating-point, class-type and compound conditions, debug and release builds; every bit pattern of the operands and results of the ten compatibility symbols, the C library's functions being any functions.",
     "The C library's own results.")

prop('C37', [R('c37.cpp', e) for e in ('any_text', 'names', 'errors', 'help_only')]
     + [R('c37.cpp', 'wrapping', thorough=dict(params={'words': 4})), R('c37.cpp', 'many_words', thorough=dict(params={'count': 60})), R('c37.cpp', 'huge', max_steps=400000000, max_alloc=8 << 20), R('c37.cpp', 'huge_set', max_steps=100000000), R('c37.cpp', 'sets', thorough=dict(params={'options': 3}))],
     "Help texts of 3 (thorough: 4) words of 12 lengths around the column's width, of up to 30 (60) words of one length, and of up to 6 arbitrary bytes; option names of 1 to 32 characters in every combination of forms; words and names of eleven lengths from 127 to 65540; 300 options, one with a help text of 3000 words; sets of up to 2 positionals, 2 (3) options of four kinds and 2 extra lines; five kinds of failure with and without help asked for.",
     "Control characters in help texts; wider option sets. The wording of messages and headings is not prescribed, except for 'Usage:' and 'error:'.")

prop('C38', [R('c38.cpp', e, timeout=300) for e in ('one_conversion', 'formats', 'odd_times', 'zones', 'long_texts', 'independent')]
     + [R('c38.cpp', 'long_formats', max_steps=400000000, thorough=dict(params={'to': 30}))],
     'Every time whose fields are within or just outside their usual ranges (years -1000 to 10899) with each of 24 conversions; every format of up to 3 parts, each an arbitrary byte or one of 7 conversions, two of them with a modifier; zone names of up to 3 bytes; formats of 14 to 1025 (thorough: 70000) bytes with two arbitrary ones, texts of 540 bytes; both forms of the call. The reference is std::put_time on the same arguments; the stream and time_put template code is executed as it is in the library headers.',
     'Locales other than "C"; malformed conversions; formats with embedded zeros; other conversions. The out-of-line part of the C++ library (locale objects, stream bases) and strftime are models; sampled paths are run against the real ones.')

NOT_APPLICABLE = {
}
