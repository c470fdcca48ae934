#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Keeping the texts here keeps the JSON lines valid."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Bit scans return the exact bit index for every non-zero word",
 "For every non-zero 32- or 64-bit word, the leftmost-bit query and the integer base-2 logarithm return the index of its highest set bit, and the rightmost-bit query returns the index of its lowest set bit. The power-of-two test is true for exactly the words with one set bit.",
 ["inputs"], "all 2^32 / 2^64 operand values",
 "tests/test-bits.cpp samples seven words and never calls Log2 or IsPowerOfTwo; a wrong answer for words above 32 bits is invisible to it.",
 ["amtl/am-bits.h"], [("count-leading/trailing-zero builtins", "am-bits.h: Log2, FindLeftmostBit32/64, FindRightmostBit, IsPowerOfTwo")])

prop("C02", "Overflow detectors are exact: never pass an overflowing sum or product",
 "For every pair of operands of the given width, the add-safe and multiply-safe tests answer true exactly when the mathematical sum or product fits the type. The checked add and multiply operations succeed exactly in that case, then store the exact result, and leave the output untouched when they fail.",
 ["inputs"], "all operand pairs of 32- and 64-bit width",
 "Tests check two multiply pairs; the add detector and am-arithmetic.h are never exercised, and the wrong answers sit at rare pairs (e.g. products that wrap to a small value or to zero).",
 ["amtl/am-bits.h", "amtl/am-arithmetic.h"], [("Is*AddSafe / Is*MultiplySafe", "am-bits.h"), ("TryUint64Multiply, TryUint32Add, TryUint64Add", "am-arithmetic.h")])

prop("C03", "Alignment helpers and pointer tag bits are exact",
 "For every count and power-of-two alignment whose result is representable, aligning up returns the smallest multiple of the alignment not below the count; aligning a pointer down returns the largest multiple not above it; the alignment tests are true exactly for multiples. Setting low tag bits on a pointer can be read back exactly and clearing them restores the original pointer, for every suitably aligned pointer and every tag value.",
 ["inputs"], "all 64-bit counts/addresses, all power-of-two alignments, tag widths 1..4",
 "Only one stack address with two tag bits is tested; Align, IsAligned and AlignedBase are untested.",
 ["amtl/am-bits.h", "amtl/am-utility.h"], [("Align, IsAligned, AlignedBase, Set/Get/ClearPointerBits", "am-bits.h"), ("IS_ALIGNED", "am-utility.h")])

prop("C04", "Hash tables, maps and sets behave as a finite map for every history",
 "After any sequence of insert, remove, lookup, clear and iterate operations, with any keys and any hash function (including colliding hashes and reserved hash values), a lookup finds a key exactly when it was inserted and not removed since, and yields the value last stored for it. The element count equals the number of such keys, and iteration visits each exactly once, including when entries are erased through the iterator.",
 ["histories", "inputs"], "operation sequences, keys and key hashes chosen by the solver",
 "Tests run two fixed five-step histories with three keys; collisions, tombstone reuse chains and reserved hashes need specific histories.",
 ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"],
 [("linear probing with free/removed markers", "am-hashtable.h: lookup, lookupForAdd, internalAdd, removeEntry"), ("adapters", "am-hashmap.h, am-hashset.h")],
 [("hash word per entry", "0 free, 1 removed, else live", "am-hashtable.h: HashTableEntry"), ("nelements/ndeleted", "live and removed entry counts", "am-hashtable.h: HashTable")])

prop("C05", "Hash table growth and shrinking preserve every entry",
 "However many entries are inserted and removed, and whenever the table grows, shrinks or cleans out removed entries as a result, every live entry stays findable with its value and no removed entry comes back. Every lookup and insertion terminates, and memory use stays proportional to the requested minimum and the largest number of entries held at once rather than to the number of operations ever performed.",
 ["histories"], "insert/remove histories that cross the growth and shrink thresholds, with solver-chosen keys at the interesting points",
 "No test inserts more than two entries, so the table never resizes in the test suite.",
 ["amtl/am-hashtable.h"], [("density check and rehash", "am-hashtable.h: checkDensity, grow, shrink, changeCapacity, insertUnique")],
 [("capacity", "power-of-two slot count, never below the initial one", "am-hashtable.h")])

prop("C06", "Hash containers construct and destroy each element exactly once",
 "Over any history of insertions, removals, clears, resizes, moves of the container and its destruction, every key and value object that a hash table, map or set constructs is destroyed exactly once, none is used after destruction, and no memory block is leaked or freed twice.",
 ["histories"], "operation sequences over element types that track their own lifetime",
 "Tests never observe destructor calls of stored elements and run without leak checking; resize and container moves are not covered.",
 ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"],
 [("placement construction and explicit destruction", "am-hashtable.h: HashTableEntry::construct/destruct, changeCapacity, clear, ~HashTable, move constructor")])

prop("C07", "Allocation failure and size overflow are reported and survivable",
 "When the allocator policy refuses a request at any point, or a requested size cannot be represented or exceeds the container's limit, hash tables and fixed arrays report the failure to the caller (and, for excess sizes, to the policy), never hand out storage smaller than asked for, and keep their previous contents. They can still be queried, used and destroyed safely afterwards. With the default system policy the program is stopped at a request that cannot be met instead of going on.",
 ["fault_sequences", "inputs"], "which allocation fails, and every requested length",
 "Every test uses the infallible system policy and small sizes; no allocation ever fails in the test suite.",
 ["amtl/am-hashtable.h", "amtl/am-fixedarray.h", "amtl/am-allocator-policies.h"],
 [("policy calls and null checks", "am-hashtable.h: init, createTable, changeCapacity, grow; am-fixedarray.h: allocate, initialize")])

prop("C08", "Hash functions depend only on the value hashed and follow their definition",
 "For every byte sequence and integer, each provided hash function returns the value its published definition gives, independent of where the bytes live and of how a stream is split into pieces, without undefined arithmetic. Equal inputs therefore always hash equally.",
 ["inputs"], "all 32/64-bit integers; all byte strings up to the stated length and all ways to split them",
 "No test calls the integer, pointer, combining or streaming hashes directly; overflow behaviour is never exercised.",
 ["amtl/am-hashtable.h"], [("CharacterStreamHasher, HashCharSequence, FastHashCharSequence, HashInt32, HashInt64, HashInteger, HashPointer, HashCombine", "am-hashtable.h")])

prop("C09", "Smart references keep an object alive exactly while references exist",
 "For every sequence of constructions, copies, moves, assignments (including self-assignment and assignment from something reachable only through the current target), adoption, hand-over and destruction of smart references, an object's count equals the number of references held. The object is destroyed exactly once, when the last reference goes away, and never while a reference to it exists.",
 ["histories"], "sequences of reference operations over several objects and reference slots",
 "The test runs one fixed script of copies; it never self-assigns, reassigns a reference that owns the source, or uses the virtual variant.",
 ["amtl/am-refcounting.h", "amtl/am-raii.h"],
 [("RefPtr / AlreadyRefed constructors, assignments, take, forget", "am-refcounting.h"), ("count in the object", "am-refcounting.h: Refcounted, VirtualRefcounted")])

prop("C10", "Threadsafe reference counts destroy exactly once under every interleaving",
 "Whatever the interleaving of retains and releases performed by several threads on one thread-safely counted object (both the plain and the virtual variant), no update of the count is lost. The object is destroyed exactly once, by the release that drops the last reference, after every other thread's use of it, and never earlier.",
 ["schedules"], "all interleavings of the threads' atomic operations",
 "The tests never release a thread-safe object from two threads and never instantiate the virtual variant at all.",
 ["amtl/am-refcounting-threadsafe.h"], [("atomic add / fetch_sub and last-reference test", "am-refcounting-threadsafe.h: RefcountedThreadsafe, VirtualRefcountedThreadsafe")],
 [("refcount", "atomic count", "am-refcounting-threadsafe.h")])

prop("C11", "Atomic references can be read and replaced concurrently without losing objects",
 "When several threads read and replace the same atomic reference concurrently, each read returns either null or a live object that was stored there, holding a reference to it. Every stored object is destroyed exactly once after its last reference is dropped, never while someone holds it, and no operation blocks forever once the others finish.",
 ["schedules"], "all interleavings of reads and writes by the threads within the stated numbers",
 "The only test uses an atomic reference from a single thread and never reads it back.",
 ["amtl/am-refcounting-threadsafe.h"], [("tag-bit spin lock around the pointer", "am-refcounting-threadsafe.h: AtomicRef::lock/unlock/get/operator=")],
 [("pointer word", "bit 0 set while locked", "am-refcounting-threadsafe.h: AtomicRef")])

prop("C12", "Intrusive lists keep order, links and length for every history",
 "After any sequence of appends, removals (through the list, through an iterator or by the node itself) and re-insertions, forward and backward iteration yield exactly the linked nodes in insertion order, the emptiness test, length and each node's membership test agree with that, and a removed node can be inserted into a list again. This holds in debug and in release builds. (A node belongs to at most one list at a time, and nodes still linked when a list is destroyed are reset in debug builds only.)",
 ["histories", "configurations"], "operation sequences over several nodes and lists, in both build configurations",
 "The test appends and erases three nodes once, in debug mode only; self-removal and re-insertion are not covered.",
 ["amtl/am-inlinelist.h"], [("sentinel-linked ring", "am-inlinelist.h: append, remove, erase, removeFromParentList, isInList")],
 [("next/prev", "both null when unlinked", "am-inlinelist.h: InlineListNode")])

prop("C13", "Function wrappers behave as values: copies and moves call the same target",
 "For every sequence of constructions, copies, moves, assignments (from empty, from itself, from callables and other wrappers) a function wrapper is empty exactly when its source was empty, and calling it has the same effect and result as calling the callable it was last given, with arguments and result passed through unchanged. A copy is independent of its original, and a moved-from wrapper is empty.",
 ["histories", "inputs"], "operation sequences over wrappers holding small and large callables, all arguments",
 "Tests run a fixed script; copying an empty wrapper, self-assignment and copying from non-const wrappers are not observed.",
 ["amtl/am-function.h"], [("type-erased holder with clone/move", "am-function.h: Function::assign, move, destroy, operator=")],
 [("impl pointer / inline buffer", "null when empty", "am-function.h")])

prop("C14", "Function wrappers destroy held callables once and keep small ones inline",
 "Every callable object a function wrapper creates is destroyed exactly once, is not touched after that, and no memory is leaked, over any history of copies, moves, assignments and destruction. A callable whose holder fits the documented inline buffer never causes a heap allocation, and moving a wrapper never copies the callable.",
 ["histories"], "operation sequences over wrappers with lifetime-tracking callables of several sizes",
 "Tests count constructor calls for one script; leaks, double destruction and allocation for small callables are not checked in general.",
 ["amtl/am-function.h"], [("inline buffer and destroy/zap", "am-function.h: FunctionHolder::clone/move, Function::destroy")])

prop("C15", "Priority queue pops elements in priority order and loses none",
 "For every sequence of additions and removals and every strict weak ordering, the element returned by peek and pop is one that no other queued element has priority over. The multiset of popped and remaining elements equals the multiset added, for copyable and move-only element types.",
 ["histories", "inputs"], "all element values and interleavings of add and pop up to the stated size",
 "The test pushes one fixed list of integers and pops it; heap repair paths depend on relative order and size parity.",
 ["amtl/am-priority-queue.h"], [("binary heap sift up/down", "am-priority-queue.h: propagateUp, propagateDown, pop")])

prop("C16", "Vector and deque helpers edit the sequence exactly as named",
 "For every sequence content, position and element, pop-back/pop-front return the end element and remove just it, insert-at/emplace-at/remove-at change exactly the addressed position keeping the order of the rest, erase-if keeps exactly the elements that fail the predicate in their order, and move-extend leaves the destination holding its old elements followed by the source's, with the source empty.",
 ["inputs"], "all contents, lengths and positions up to the stated length",
 "Tests use fixed vectors; MoveExtend and EmplaceAt are not called by any test.",
 ["amtl/am-vector.h", "amtl/am-deque.h"], [("wrappers over std::vector / std::deque", "am-vector.h, am-deque.h")])

prop("C17", "Fixed arrays own their elements: exact contents, one destruction each, no leak",
 "For every length and content, a fixed array holds exactly the requested number of elements with the values default-constructed, copied or moved from its source; copy and move construction and assignment (including self-assignment and assignment between different lengths) give the target the source's former contents; equality compares element-wise. Every element is destroyed exactly once and no memory leaks.",
 ["histories", "inputs"], "lengths and contents up to the stated size and sequences of copies, moves and assignments",
 "am-fixedarray.h has no test at all.",
 ["amtl/am-fixedarray.h"], [("allocate / destruct / deallocate", "am-fixedarray.h")])

prop("C18", "Optional values: presence, contents, lifetime and alignment are exact",
 "For every sequence of initialisations, copies, moves and assignments (including self-assignment), an optional value holds a value exactly when one was given and not moved away, and then the value equals the one given. Each contained object is constructed at an address suitable for its type and destroyed exactly once.",
 ["histories", "inputs"], "operation sequences over optionals with lifetime-tracking and over-aligned contents",
 "am-maybe.h and am-storagebuffer.h are only used incidentally by the argument parser tests with trivially destructible or constant contents.",
 ["amtl/am-maybe.h", "amtl/am-storagebuffer.h"], [("presence flag and raw storage", "am-maybe.h: init, copyFrom, moveFrom; am-storagebuffer.h")])

prop("C19", "Scope guards restore or run exactly once",
 "For every nesting, move and cancellation of scope guards, a guard's action runs exactly once when it was not cancelled and never when it was; a saved location gets exactly its previous value back at scope exit; stack links always name the innermost live object and are unlinked in reverse order; taking a value leaves the default value behind.",
 ["histories", "inputs"], "nestings, moves, cancellations and values",
 "Tests run two fixed scopes; moving a guard, value restoration and stack linking are untested.",
 ["amtl/am-raii.h"], [("SaveAndSet, StackLinked, ScopeGuard, ReturnAndVoid", "am-raii.h")])

prop("C20", "Flag sets obey the algebra of bit sets for every value and width",
 "For all values of an enumeration of any underlying integer width and signedness, union, intersection, difference, symmetric difference, complement, comparison, emptiness and their assigning forms act bit for bit on exactly the bits of that width, for the flag-set type and for the generated enumeration operators alike.",
 ["inputs"], "all operand values for 8-, 16-, 32- and 64-bit underlying types, signed and unsigned",
 "The test uses six values of one 32-bit enumeration.",
 ["amtl/am-flags.h", "amtl/am-enum.h"], [("Flags operators", "am-flags.h"), ("KE_DEFINE_ENUM_OPERATORS / COMPARATORS", "am-enum.h")])

prop("C21", "Floating-point classification and modulus follow IEEE values",
 "For every single- and double-precision bit pattern, the infinity test is true exactly for plus and minus infinity and the NaN test exactly for NaNs. The floating-point modulus gives the C-library remainder of its two operands in the order given.",
 ["inputs"], "all 2^32 float and 2^64 double patterns",
 "am-float.h has no test.",
 ["amtl/am-float.h"], [("bit-mask classification", "am-float.h: IsInfinite, IsNaN, FloatModulo")])

prop("C22", "Time conversions are exact over the representable range",
 "For every seconds/nanoseconds pair whose seconds and whose total fit the nanosecond type, converting to a duration or to a time point of a clock gives exactly that instant (rounded toward zero to the clock's resolution), and building a time point from an epoch count preserves the count.",
 ["inputs"], "all representable seconds/nanoseconds pairs and epoch counts",
 "One timespec value is tested.",
 ["amtl/am-time.h"], [("chrono conversions", "am-time.h: TimespecToDuration, TimespecToTimePoint, EpochValueToTimePoint")])

prop("C23", "Bounded string copies never overrun and always terminate",
 "For every destination size and source string (and, for appending, every string already stored in the destination), the bounded copy and append functions write only inside the destination's stated size, leave it terminated whenever that size is non-zero, produce the longest prefix that fits (and, for the counted form, at most the given number of characters), read no byte of the source past its terminator, and return the resulting length.",
 ["inputs"], "all strings, sizes and counts up to the stated bounds",
 "Tests use a six-byte buffer with eight inputs; count beyond the source length and zero counts are not tried.",
 ["amtl/am-string.h"], [("SafeStrcpy, SafeStrcat, SafeStrcpyN", "am-string.h")])

prop("C24", "Formatting helpers return exactly the formatted text, bounded and terminated",
 "Whatever the formatter produces, the allocating forms return exactly that text with its exact length, and the buffer forms store its longest fitting prefix, terminated, writing nothing beyond the stated size and returning the stored length; should the formatter fail, a buffer is still terminated and no memory is leaked. Path formatting additionally turns every foreign separator into the native one, and system error formatting yields the system's message truncated to the buffer.",
 ["inputs", "fault_sequences"], "formatter output of any length and content within bounds, formatter failure, buffer sizes including zero",
 "Four fixed format calls with ample buffers are tested; truncation, empty output and formatter failure are not.",
 ["amtl/am-string.h", "amtl/os/am-path.h", "amtl/os/am-system-errors.h"],
 [("two-pass formatting and truncation handling", "am-string.h: SprintfArgsImpl, SafeVsprintf, StringPrintfVa"), ("separator rewriting", "am-path.h: FormatVa"), ("strerror_r variants", "am-system-errors.h")])

prop("C25", "Splitting and joining strings are inverse and exact",
 "For every string and every non-empty separator, joining the split pieces with that separator gives the string back, no piece contains the separator except where overlapping occurrences make it unavoidable, and the pieces are the leftmost non-overlapping fields. Joining any list gives the pieces in order with the separator between consecutive ones only.",
 ["inputs"], "all strings and separators up to the stated lengths, lists with pieces of any content",
 "Tests use eleven fixed cases; overlapping separators, trailing separators and multi-character separators are not covered.",
 ["amtl/am-string.h"], [("Split, Join", "am-string.h")])

prop("C26", "Case mapping and prefix/suffix tests are exact for every string",
 "For every string, upper- and lower-casing keep the length and map each character as the C library does for that byte, prefix and suffix tests are true exactly when the string begins or ends with the other one, and caseless comparison is zero exactly for strings equal up to letter case, with no undefined behaviour for any byte value.",
 ["inputs"], "all strings up to the stated length over all byte values",
 "Tests use ASCII literals only; bytes above 127 and suffixes longer than the string are sampled once or not at all.",
 ["amtl/am-string.h"], [("Uppercase, Lowercase, StartsWith, EndsWith, StrCaseCmp", "am-string.h")])

prop("C27", "Argument parsing accepts exactly the documented grammar, for any argv",
 "For every argument vector and every parser configuration, parsing never crashes and succeeds exactly when each argument matches the documented forms (short, long, '=' values, following value, inline and colon values, slashes, negated switches, positionals in order, stop options), every required positional is present, no single-use option repeats and no value is missing, invalid or given to an option that takes none. On success each option holds exactly the value given or its default.",
 ["inputs", "configurations"], "argument vectors of solver-chosen strings for several parser configurations",
 "Tests parse about thirty fixed vectors; unknown negated options, mixed orders and malformed values need particular strings.",
 ["amtl/experimental/am-argparser.h", "amtl/experimental/am-argparser.cpp"], [("parse_impl, find_short, find_long, find_inline_short", "am-argparser.h")])

prop("C28", "Parser reset makes the next parse independent of history",
 "After resetting a parser, parsing any argument vector gives the same outcome, option values, extra arguments and passthrough arguments as the same parse on a freshly built parser, whatever was parsed before.",
 ["histories", "inputs"], "every earlier and later argument vector within bounds",
 "Tests reset between parses but never with leftover extra or passthrough arguments.",
 ["amtl/experimental/am-argparser.h"], [("Parser::reset and option resets", "am-argparser.h")],
 [("accumulated values, extra and passthrough lists", "what a parse leaves behind", "am-argparser.h: Parser, Option")])

prop("C29", "Option values are converted exactly or rejected",
 "An integer option accepts a text exactly when it is a decimal integer (as strtol reads one: leading blanks and a sign are allowed) that the option's type can represent, and then yields that integer. A boolean option yields true when given no value, accepts true and false in any letter case, and otherwise rejects the value or leaves a following argument to be parsed on its own; a string option yields exactly the text given and rejects the empty one.",
 ["inputs"], "all value texts up to the stated length (long enough to exceed the integer range)",
 "Tests convert 308, 2 and reject 30x; no out-of-range, signed or boolean value is tried.",
 ["amtl/experimental/am-argparser.h"], [("ValuePolicy<int/bool/string>::consumeValue", "am-argparser.h")])

prop("C30", "Extra and passthrough arguments are collected verbatim and in order",
 "With collection enabled, every argument that is neither an option, an option's value nor a positional is kept verbatim and in order; with passthrough enabled, every argument after the first standalone double dash is kept verbatim and in order and none of them is interpreted, further double dashes included. Nothing is dropped or duplicated.",
 ["inputs"], "argument vectors of solver-chosen strings",
 "One fixed vector per feature is tested, without a second double dash or interleaved options.",
 ["amtl/experimental/am-argparser.h"], [("extra_args / passthrough_args handling in parse_impl", "am-argparser.h")])

prop("C31", "Thread-local slots isolate threads and round-trip every value",
 "Under every interleaving of first uses, a thread reads from a thread-local variable exactly the value it last stored itself, or the default if it stored none; no thread ever sees another's value, and the system slot is created once and released once. This holds for every value of integer and pointer types, and failure to obtain a slot is reported and does not corrupt later uses.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings of two or three threads' first uses, all values, slot creation failure",
 "The test starts its second thread after the first has stored, so racing first uses never happen.",
 ["amtl/am-threadlocal.h"], [("lazy slot allocation", "am-threadlocal.h: allocate, get, set")],
 [("allocated flag and key", "slot is usable once allocated", "am-threadlocal.h")])

prop("C32", "Mutex ownership assertion holds exactly for the owning thread",
 "Under every interleaving, a thread that acquired the mutex, by blocking or by a successful attempt, passes the ownership assertion until it unlocks, and in debug builds any other thread fails it (release builds compile the assertion out); the mutex provides mutual exclusion throughout.",
 ["schedules", "configurations"], "all interleavings of lock, try-lock and unlock by the threads, with and without assertions compiled in",
 "am-mutex.h has no test.",
 ["amtl/am-mutex.h"], [("owner bookkeeping", "am-mutex.h: lock, unlock, AssertCurrentThreadOwns")])

prop("C33", "Named threads run the given callable once with the given arguments",
 "A thread started through the naming helper runs the given callable exactly once on the new thread, with exactly the arguments given (copied or moved at creation), after the thread received the given name (of up to 15 bytes, the system's limit), whatever the callable and argument values, and even if the caller's name string and arguments are gone by then.",
 ["inputs", "schedules"], "all argument values and names, start of the thread delayed arbitrarily",
 "One thread with one constant argument is started and joined at once.",
 ["amtl/am-thread.h"], [("NewThread, SetThreadName", "am-thread.h")])

prop("C34", "Shared-library handles are closed exactly once and failures are reported",
 "Opening a library yields a reference exactly when the system loader succeeds; otherwise null is returned and the loader's message is stored in the caller's buffer, truncated and terminated within its size. The loader handle is closed exactly once, when the last reference goes away, and lookups pass the handle and symbol through unchanged.",
 ["fault_sequences", "inputs"], "loader success or failure, any message length and buffer size",
 "One successful load is tested; failure, message truncation and closing are not.",
 ["amtl/os/am-shared-library.h"], [("SharedLib::Open, lookup, destructor", "am-shared-library.h")])

prop("C35", "File-system queries report exactly what the system says",
 "A path exists exactly when the system can describe it, is a file exactly when that description is a regular file and a directory exactly when it is a directory, for every kind of object and every failure; creating a directory passes the path and permission bits through and reports success exactly when the system does.",
 ["fault_sequences", "inputs"], "every mode word and error the system may return",
 "No test calls the file-system helpers.",
 ["amtl/os/am-fsutil-posix.h", "amtl/os/am-fsutil.h"], [("PathExists, IsFile, IsDirectory, CreateDirectory", "am-fsutil-posix.h")])

prop("C36", "Release assertions and link shims behave the same in every build",
 "A release assertion evaluates its condition exactly once and stops the program exactly when the condition is false, with and without debug assertions compiled in. Each finite-math compatibility symbol returns what the corresponding C library function returns for the same operands.",
 ["inputs", "configurations"], "all condition values and operand values, both build configurations",
 "Neither header nor compat/ is exercised by a test.",
 ["amtl/am-assert.h", "compat/stdcxx.cpp"], [("KE_RELEASE_ASSERT", "am-assert.h"), ("__*_finite forwarders", "compat/stdcxx.cpp")])

prop("C37", "Usage output shows every option and every word of help in order",
 "For every set of options and help texts, the usage output lists each positional and option once, contains every word of every help text in order, and keeps each help line within the column budget unless a single word exceeds it; after a failed parse it prints the error instead, unless help was requested.",
 ["inputs"], "help texts and option names of solver-chosen contents within bounds",
 "No test calls the usage functions.",
 ["amtl/experimental/am-argparser.h"], [("usage, usage_line, add_usage_line", "am-argparser.h")])

prop("C38", "Formatted times equal the C++ library's rendering",
 "For every broken-down time and format, the formatted text equals what the standard time formatting facility produces for the same arguments.",
 ["inputs"], "all struct tm values and format strings",
 "No test formats a time.",
 ["amtl/am-time.h"], [("FormatTime", "am-time.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
