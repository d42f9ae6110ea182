#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run by hand after editing the table)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "bounded exhaustive explicit-state exploration of the real code against a reference model"
THR = "stateless model checking of the real code under a controlled scheduler (all schedules within a preemption bound)"
P = []


def p(id, title, statement, over, text, why, files, mech, note, technique=SEQ):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/utki/" + f for f in files],
                               mechanism=[dict(name=n, where="src/utki/" + w) for n, w in mech]),
                  note=note, technique=technique))


p("C01", "Spin lock: critical sections never overlap and see each other's effects",
  "Whatever number of threads use one spin lock and however they are interleaved, at most one thread at a time is between "
  "acquiring the lock and the matching release, and everything done in one critical section, "
  "including plain non-atomic writes, is visible in all later critical sections on every platform the C++ memory model allows. "
  "This holds with the standard lock guards, nested use of several locks and critical sections left by exceptions.",
  ["schedules", "programs"],
  "all interleavings of 2-4 threads running all short scripts of critical sections (plain, guarded, nested, re-locked), including the "
  "orderings the C++ memory model permits (unsynchronised plain accesses, stale atomic reads)",
  "The existing test samples a few hardware schedules on x86, where weakened memory orders do not show themselves.",
  ["spin_lock.hpp"], [("spin_lock::lock(), unlock()", "spin_lock.hpp")],
  "All schedules of 2-4 threads within a preemption bound, happens-before tracked per memory order with vector clocks. Trusts the "
  "compiler's thread-sanitizer instrumentation and the scheduler in mc/sched.cpp; finite scripts and preemption bounds.", THR)
p("C02", "Spin lock: no deadlock, a released lock is obtainable, locks are independent",
  "A free spin lock is acquired without waiting for anybody; a thread waiting for a lock obtains it once the holder "
  "releases it and the waiter is scheduled, so every program in which each holder releases its lock runs to completion under every fair "
  "schedule. Operations on one lock never depend on or affect another lock, and a released lock can be acquired any number of times again.",
  ["schedules", "histories"],
  "all interleavings of 2-4 threads, all short acquire/release histories on one and several locks",
  "A test run that completes says nothing about the schedule in which a waiter is never let in or two locks interfere.",
  ["spin_lock.hpp"], [("spin_lock::lock(), unlock()", "spin_lock.hpp")],
  "All schedules within a preemption bound, deadlock and livelock (spinning with nobody able to change the state) detected. Fairness: a spinning "
  "or yielding thread eventually lets others run.", THR)
p("C03", "UTF-8: encoding and decoding are exact inverses for every character",
  "Every character code from 0 up to 0x7fffffff is encoded as the standard 1 to 6 byte UTF-8 sequence (shortest form, zero terminated "
  "when encoded singly) and decoding returns the same code. Encoding then decoding any text gives the same text, through every entry point "
  "(zero-terminated, string, buffer, iterator), of any length, except that a zero character ends a text, as it ends a C string.",
  ["inputs"], "all codes 0..2^31-1 (quick: all up to 0x1fffff and neighbourhoods of all boundaries above); all texts up to a bounded length over one "
  "representative per length class",
  "The tests decode a couple of sentences; nothing looks at the boundaries between 1..6 byte forms.",
  ["unicode.hpp", "unicode.cpp"], [("to_utf8(char32_t), to_utf8(span)", "unicode.cpp"), ("utf8_iterator, to_utf32()", "unicode.cpp")],
  "Exhaustive in the thorough tier over all 2^31 codes, bounded over texts; oracle is an independent table driven encoder.")
p("C04", "UTF-8: decoding malformed or truncated bytes is memory safe and terminates",
  "Decoding any byte sequence, valid or not, given as a buffer, a string or a zero-terminated string, never reads outside of the "
  "given bytes (for zero-terminated strings: beyond the terminator) and always terminates with at most as many characters as there are bytes. "
  "All well-formed characters before the first malformed byte are decoded exactly, and the entry points agree with each other on the result.",
  ["inputs"], "all byte strings up to a bounded length over all 256 values / all byte classes; all truncations of multi-byte characters",
  "The tests feed well-formed text only.",
  ["unicode.hpp", "unicode.cpp"], [("utf8_iterator::operator++()", "unicode.cpp"), ("to_utf32(span)", "unicode.cpp")],
  "All byte strings within length bounds, executed under address/undefined behaviour sanitizers with exactly sized heap buffers.")
p("C05", "Base64: decoding returns exactly the bytes that were encoded",
  "For every byte sequence, decoding its standard base64 encoding, with or without the trailing padding, returns exactly that byte sequence. "
  "The result does not depend on earlier calls.",
  ["inputs"], "all byte sequences of length 0-3, all sequences of boundary bytes up to a bounded length, all lengths up to thousands, all call pairs",
  "The tests decode a few sample strings; a wrong table entry or tail length stays invisible.",
  ["base64.hpp", "base64.cpp"], [("base64_decode() and its decode table", "base64.cpp")],
  "Every 4-character group and every tail form is covered exhaustively; positions in longer strings by bounded enumeration.")
p("C06", "Base64: malformed input is rejected or decoded without leaving the input",
  "Decoding an arbitrary string, of any characters (including non-ASCII and zero) and any length, never accesses memory outside of the string, always "
  "terminates, and either returns at most three bytes per four (started) input characters or throws an invalid argument error; text of base64 letters only with a "
  "single left over character is never silently read past its end.",
  ["inputs"], "all byte strings up to a bounded length over all 256 values or one representative per class; all padding patterns; one bad byte at each position",
  "The tests never pass a malformed string.",
  ["base64.hpp", "base64.cpp"], [("base64_decode()", "base64.cpp")],
  "All strings within length bounds under address/undefined behaviour sanitizers with exactly sized heap buffers.")
p("C07", "Deserializer: reads form a bounds-checked cursor; a failed read consumes nothing",
  "Any sequence of reads (integers, floats, strings, byte ranges) and skips over a buffer yields consecutive parts of the buffer interpreted in the requested width and byte order; the reported "
  "size and emptiness always agree with what has been consumed. A read which does not fit in the remaining bytes throws "
  "an invalid argument error, never touches bytes outside of the buffer and leaves the position unchanged.",
  ["inputs", "histories"], "all operation sequences up to a bounded depth on all buffer sizes up to a bound; each operation at each position with each argument around the remaining size, and huge sizes",
  "The tests read one well formed buffer per type.",
  ["deserializer.hpp", "deserializer.cpp"], [("bounds checks of deserializer reads", "deserializer.cpp")],
  "All operation sequences within depth and size bounds, compared step by step with a cursor model, under sanitizers.")
p("C08", "Serialization of fixed-width numbers: layout, extent and round trip",
  "Serializing an unsigned integer of 8 to 64 bits or a float writes exactly its width in bytes, in the requested byte order, returns the position right "
  "after them, touches nothing else; deserializing these bytes returns the identical value, bit for bit, at any alignment.",
  ["inputs"], "all 8/16-bit values, all 32-bit values and floats (thorough; quick: a covering set), all bytes at all positions and bit patterns of 64-bit values, all sequences of operations in one buffer",
  "The tests check one constant per width.",
  ["utility.hpp"], [("serialize_le/be, deserialize_le/be, float variants", "utility.hpp")],
  "Exhaustive for 8, 16 and (thorough) 32 bits and floats; bit-pattern families for 64 bits.")
p("C09", "Tree traversal: depth-first order, positions and validity for every tree",
  "Walking a forest forwards visits every node exactly once, parents before children and siblings in order; walking backwards visits them in exactly the opposite "
  "order, from any position, including stepping back from the end. Each position knows its index path and depth, converts to and from that path, compares equal/less exactly in "
  "visiting order, and a path is reported valid exactly when a node is there; asking for an impossible level or index is reported by an out of range error.",
  ["inputs", "histories"], "all ordered forests up to a bounded number of nodes, all positions in them, all index paths around them; selected large/deep shapes",
  "The tests use one hand made tree, in which e.g. several consecutive steps up the levels do not occur at the end.",
  ["tree.hpp"], [("traversal, its iterators, make_index/make_iterator/is_valid", "tree.hpp")],
  "All forests up to the node bound over vector, list and deque children; oracle is the recursive pre-order listing.")
p("C10", "Tree editing: insertion and removal through traversal positions",
  "Inserting before a position (including the end) or after it (behind the whole subtree of the node) puts the node as sibling exactly there, and removal takes away exactly the node and its "
  "subtree; all other nodes keep their values and order. The returned position refers to the inserted node, or to the next node in visiting order after the removed "
  "subtree, and remains fully usable for further walking and editing. A node assigned from another node of the same tree, its own descendant or ancestor included, becomes what that node was.",
  ["inputs", "histories"], "all forests up to a bounded size, all positions, all operations, and all operation sequences up to a bounded depth, over several container kinds",
  "The tests insert and erase at a few hand-picked places.",
  ["tree.hpp"], [("traversal::insert, insert_after, erase", "tree.hpp"), ("tree::operator=", "tree.hpp")],
  "All forests x positions x operations within bounds, sequences to a depth, compared with a nested list model, under sanitizers.")
p("C11", "String parser: a cursor that consumes exactly what it returns",
  "Over any string and any sequence of operations the parser consumes exactly the characters it hands out or says it skips, in order: returned pieces, skipped pieces and the "
  "remaining view always concatenate to the original string. Reading beyond the end throws an error and nothing outside of the string is ever accessed; copies "
  "of a parser are independent. What counts as white space or as a letter does not depend on the global locale of the program.",
  ["inputs", "histories"], "all strings up to a bounded length over a representative alphabet, all operation sequences to a bounded depth, all 256 characters, classic and unusual global locales",
  "The tests parse a handful of fixed strings with fixed operation orders.",
  ["string.hpp", "string.cpp"], [("string_parser", "string.cpp")],
  "All strings x operation sequences within bounds compared with a position model; exactly sized heap buffers under sanitizers.")
p("C12", "Integers convert to and from text exactly, with errors reported",
  "Reading an integer of any width and signedness out of any text, in decimal or (unsigned) with binary, octal or hexadecimal prefix, gives exactly the value of the longest number there and consumes exactly its characters; zero is returned when it does not fit the type, and text which is no number is refused by "
  "an invalid argument error. Converting any integer to text in base 2, 8, 10 or 16 gives its exact digits, which are read back as the same value. The global locale of the program has no influence.",
  ["inputs"], "all short strings over digits, signs and other characters; all 8/16-bit values and neighbourhoods of all powers and limits for 32/64 bits, in all bases",
  "The tests convert about twenty numbers.",
  ["string.hpp", "string.cpp"], [("from_chars, to_string, string_parser::read_number", "string.hpp, string.cpp")],
  "Exhaustive for 8/16-bit values and short strings, boundary families for the rest; oracle is independent long arithmetic.")
p("C13", "Decimal text is converted to the nearest float or double",
  "Parsing decimal floating point text gives the correctly rounded (nearest, ties to even) float or double and consumes exactly the number's characters, for every digit count, exponent and sign, with infinities, NaNs "
  "and out-of-range values handled as the standard prescribes. Any finite value printed with enough digits is read back bit for bit; text which is no number is "
  "reported as an error without consuming anything. Neither the global locale of the program nor its floating point rounding mode has any influence.",
  ["inputs"], "all short strings over the number alphabet, all exponents, midpoints between neighbouring floats/doubles across the range, round trips, long digit strings",
  "The tests parse several round numbers; the halfway cases never occur.",
  ["string.hpp", "string.cpp"], [("from_chars for float/double, string_parser::read_number", "string.cpp"), ("bundled decimal conversion", "../../src_deps/fast_float")],
  "All strings within length bounds, all exponents, midpoint families; oracle is exact big-integer rounding / the C library. Known finding: hexadecimal format (see known_findings.txt).")
p("C14", "Split, join, trim, concatenate, prefix and suffix tests are exact",
  "Splitting any text at a delimiter gives exactly the pieces between delimiters, so that joining them with the same delimiter restores the text; splitting at white space gives exactly the words. "
  "Trimming removes exactly the white space at the requested ends and nothing else; prefix and suffix tests are true exactly when the text begins/ends with the given string. "
  "Making strings out of buffers and concatenating printable values preserve the contents exactly. What counts as white space does not depend on the global locale of the program.",
  ["inputs"], "all strings up to a bounded length over a representative alphabet, all 256 characters, all delimiters, several character types, long strings",
  "The tests use a few examples; for instance a suffix which also occurs earlier was never tried (it failed).",
  ["string.hpp", "string.cpp"], [("split, join, cat, trim*, starts_with, ends_with, make_string(buffer)", "string.hpp")],
  "All strings within length bounds against direct definitions.")
p("C15", "Word wrapping keeps the text and never exceeds the width",
  "For any text and any width of at least one, no produced line is longer than the width, explicit line feeds always break lines, and the lines put together "
  "contain all characters of the text in the original order except spaces dropped at line breaks and line feeds. Words that fit in a line are not "
  "broken in the middle when the line can be broken at a space before them; a text shorter than the width stays in one line.",
  ["inputs"], "all texts up to a bounded length over letters, spaces, tabs and line feeds, all widths; regular long texts",
  "The tests wrap several sentences with one width each.",
  ["string.hpp", "string.cpp"], [("word_wrap", "string.cpp")],
  "All texts x widths within bounds, compared with an independent re-implementation of the breaking rule and with the invariants.")
p("C16", "Formatted strings of any length equal the C library's; indentation is exact",
  "Formatting with a printf-like format gives exactly the text the C library would print, for every result length, including zero, lengths around internal buffer sizes and very long ones, embedded zero characters, and any sequence of calls, including after a call which the C library could not format: such a call throws an exception. "
  "An indentation string is exactly depth times size spaces for every depth and size.",
  ["inputs"], "all result lengths up to thousands plus boundary lengths, all conversion specifiers with boundary values, all call pairs",
  "The tests format a couple of short strings, not around the size of the internal buffer.",
  ["string.hpp", "string.cpp"], [("make_string(), make_string_va_list(), make_indentation()", "string.cpp")],
  "All lengths within the bound against an independently computed expected text, under sanitizers.")
p("C17", "Signals call every connected callback exactly once, in order, with the values",
  "Emitting a signal invokes exactly the currently connected callbacks, once each, in connection order, each with the emitted values intact; a disconnected "
  "callback is never invoked again and disconnecting or connecting others does not change which of the rest are invoked. This holds when callbacks connect others (invoked in the same emission), disconnect "
  "others or emit recursively, and when a callback throws the exception reaches the emitter and the signal stays usable.",
  ["histories", "inputs"], "all histories of connect, disconnect, clear, query and emit up to a bounded depth, all callback behaviours up to a number of callbacks, argument kinds (by value, reference, move-only observers)",
  "The tests connect up to three passive callbacks.",
  ["signal.hpp"], [("signal::connect, disconnect, emit", "signal.hpp")],
  "All histories within the depth bound, compared with a list model. A callback disconnecting itself while it runs is out of scope.")
p("C18", "Shared references: never null, the object lives exactly as long as it is owned",
  "A shared reference obtained in any way (created, copied, moved from, converted to a base or constant type, cast, obtained from the object itself, restored from a weak reference) always refers to a live object, and the object is destroyed "
  "exactly once, when the last owner goes away, whatever the history of copies, assignments, moves and swaps. "
  "A weak reference yields the object while it is owned and nothing afterwards; a failed dynamic cast is reported by an exception; comparison compares the referred objects.",
  ["histories"], "all histories of reference operations up to a bounded depth over several variables and objects",
  "The tests check construction and conversion, not histories.",
  ["shared_ref.hpp", "shared.hpp"], [("shared_ref", "shared_ref.hpp"), ("shared, make_shared_from, weak references", "shared.hpp")],
  "All histories within the depth bound, ownership model compared after every step; lifetime observed by tracked objects and address sanitizer.")
p("C19", "Unique references: exactly one owner, objects destroyed once and completely",
  "A unique reference owns exactly one object at all times except after being moved from; the object is destroyed exactly once, when its owner is destroyed or assigned another one, through the full destructor of its real type even when held by a base type. "
  "Moves, conversions and swaps transfer ownership without copying the object; comparison compares the referred objects.",
  ["histories"], "all histories of create, move, convert, assign, swap, release up to a bounded depth",
  "The tests check a few constructions.",
  ["unique_ref.hpp", "destructable.hpp"], [("unique_ref", "unique_ref.hpp"), ("destructable", "destructable.hpp")],
  "All histories within the depth bound with tracked object lifetimes and address sanitizer.")
p("C20", "Singletons: at most one instance, reachable exactly while it lives",
  "At any time at most one instance of a singleton type exists: creating a second one throws an error and leaves the first one unaffected and reachable, also when construction of the "
  "derived part fails. The instance is reported as existing exactly from the construction to the destruction, after which it can be created again; different singleton types do not affect each other.",
  ["histories", "fault_sequences"], "all histories of create, failed create (second instance or throwing derived constructor), access, query and destroy up to a bounded depth on several singleton types",
  "The tests create one instance once.",
  ["singleton.hpp"], [("singleton constructor/destructor, inst(), is_created()", "singleton.hpp")],
  "All histories within the depth bound.")
p("C21", "Scope guards run their function exactly once on every way out",
  "The function given to a scope guard runs exactly once when the scope is left, whichever way it is left (end, return, break, exception), in reverse order of guard creation, and never "
  "when the guard has been released. An exception thrown by the function does not escape from the guard; releasing hands the function over unrun; an empty function is harmless.",
  ["histories", "fault_sequences"], "all combinations of guards, actions on them, functions that throw, and ways to leave the scope",
  "The tests leave the scope one way.",
  ["utility.hpp"], [("scope_exit", "utility.hpp")],
  "All combinations within bounds with an event log compared with the model.")
p("C22", "Flag sets behave as sets of enumeration items for every enumeration size",
  "For an enumeration of any size, including sizes which are not a multiple of a machine word or byte, a set of flags behaves as the mathematical set of items: construction, set, clear, test, invert, union, intersection, symmetric difference, "
  "comparison, all-clear and all-set queries and printing all agree with it, and bits outside of the enumeration never influence a result.",
  ["inputs", "histories"], "all sets and pairs of sets for small enumerations; boundary patterns for enumerations up to over hundred items; operation histories",
  "The tests use one small enumeration and a few values.",
  ["flags.hpp"], [("flags", "flags.hpp")],
  "All values and pairs for small enumerations, pattern families and histories for big ones, against std::set/bool vector model.")
p("C23", "Enumeration ranges, arrays, views and range helpers visit exactly their elements",
  "Iterating an enumeration visits each item once in order, forwards and backwards, and enumeration-indexed arrays map each item to its own element. Zipped views visit corresponding elements and end exactly with the shortest, reversed and front-skipping views visit exactly the "
  "same elements in opposite order / without the first ones, referring to the original elements, never touching anything outside of the collections. Stepping iterators by unsigned distances, containment tests and "
  "flipping pairs and maps give exactly the expected element, answer or collection.",
  ["inputs"], "all combinations of collection lengths up to a bound, collection kinds and numbers of zipped collections; all contents up to a bound",
  "The tests zip two or three collections of fixed lengths.",
  ["views.hpp", "enum_iterable.hpp", "enum_array.hpp", "utility.hpp"],
  [("zip/reverse/skip_front", "views.hpp"), ("enum_iterable", "enum_iterable.hpp"), ("enum_array", "enum_array.hpp"), ("next, prev, contains, flip_map", "utility.hpp")],
  "All length combinations within bounds against direct loops, under sanitizers and library assertions.")
p("C24", "Collection queries equal plain loops and leave borrowed collections alone",
  "Selecting, filtering, ordering and grouping a collection through chained queries gives exactly what plain loops would give: same elements, same order (ordering is ascending by the key), same groups. A collection passed by reference is not modified; "
  "one given away by value is consumed without copying its elements.",
  ["inputs"], "all small collections over a small value set, all query chains to a bounded length, long collections, move-only elements",
  "The tests run one example per operation.",
  ["linq.hpp"], [("linq()", "linq.hpp")],
  "All collections x chains within bounds against loops.")
p("C25", "Sorting yields an ordered permutation for every input and order",
  "Sorting any random-access range with any strict weak ordering gives a permutation of the input in non-descending order, never touches elements outside of the range, and never compares anything else than elements of the range; at compile time it gives the same results as at run time.",
  ["inputs"], "all inputs up to a bounded length over all orderings with ties, all permutations, all 0/1 inputs, long structured inputs, comparator kinds",
  "The tests sort a few arrays.",
  ["sort.hpp"], [("sort()", "sort.hpp")],
  "All inputs within bounds; 0-1 inputs; compile-time evaluation of the same families.")
p("C26", "Spans designate exactly their elements; derived spans stay inside",
  "A span made of any supported source covers exactly the source's elements; element access, iteration in both directions, sub-spans and byte/character reinterpretation all stay within and refer to the same memory. Checked access outside throws an out of range error; contents comparison is lexicographical; "
  "overlap queries answer exactly whether an address is inside.",
  ["inputs"], "all sizes up to a bound, all sub-span offsets and counts around the size, all pairs of short contents, all sources and element types",
  "The tests build few spans and sub-spans.",
  ["span.hpp"], [("span, subspan, at, deep_equals..., overlaps, make_span", "span.hpp")],
  "All sizes/offsets/contents within bounds with exactly sized buffers under sanitizers.")
p("C27", "Exception descriptions tell the whole cause chain",
  "The text made of an exception, given as an object or as the one currently being handled, names every level of its chain of causes, outermost first, each with its type and message, whatever mixture of standard, library and foreign exception types the chain is built of and however deep it is; a chain "
  "built by one nesting mechanism gives exactly one line per level, each with the requested indentation. Making a description never terminates the program, and rethrowing with a cause throws a library exception which describes both the new exception and the whole chain of its causes, also when described later or elsewhere than where it was caught; the text given by what() stays valid as long as the exception object exists.",
  ["inputs", "programs"], "all chains up to a bounded length over all kinds of exceptions, indentations, messages; long chains",
  "The tests print one chain.",
  ["exception.hpp", "exception.cpp"], [("to_string(exception), current_exception_to_string(), throw_with_nested()", "exception.cpp")],
  "All chains within bounds against an independently built list of expected levels.")
p("C28", "Assertions always stop the program; logging delivers everything immediately",
  "A failed assertion stops the program abnormally after writing the location and the given message to the error output, whatever that message printer does short of ending the program itself; a satisfied one has no effect and does not evaluate the message; in release builds debug-only assertions, "
  "blocks and logs are not executed at all, while always-on assertions still work. Everything printed to the log reaches the output exactly, in order and without delay, even when the program stops right after; the console detection answers truthfully for each standard stream.",
  ["inputs", "fault_sequences", "configurations"], "all assertion forms x conditions x message printers x build configurations, output redirected to files/pipes/terminals/closed, crash right after log at each point",
  "In-process tests cannot observe a program stop or output of a dying process.",
  ["debug.hpp", "debug.cpp", "log.hpp", "log.cpp", "utility.cpp"], [("assert family", "debug.hpp, debug.cpp"), ("log family", "log.hpp, log.cpp"), ("is_terminal_*", "utility.cpp")],
  "Every combination executed in a forked child in debug and release builds; output compared byte for byte (log) or by required content (assertions).")
p("C29", "Versions, arithmetic helpers, visitors and type queries are exact",
  "Versions compare as (major, minor) pairs, consistently in all comparison operators and in their single-number form, and print as \"major.minor\". Integer powers, sign, and angle conversions equal the arithmetic definition over the whole range where it is representable; a set of visitors "
  "always receives the alternative actually stored in a variant, with the visitor meant for its type, and type queries answer according to their definitions.",
  ["inputs"], "all pairs over boundary components (and all small values), all exactly representable arguments of powers up to a bound, all variants",
  "The tests check single values.",
  ["version.hpp", "math.hpp", "variant.hpp", "type_traits.hpp", "types.hpp"],
  [("duplet", "version.hpp"), ("pow2..pow6, sign, deg_to_rad", "math.hpp"), ("overloaded, variadic helpers", "variant.hpp"), ("traits", "type_traits.hpp")],
  "Full boundary products against direct arithmetic in wide integers/long double.")
p("C30", "Calls in different threads on separate or only read data behave as if made alone",
  "Any library functions may be called at the same time from different threads, each on its own data or on objects which all of them only read (an exception caught in several threads included): every call gives exactly the result it gives when made alone, in every interleaving, and there are no unsynchronised "
  "accesses to shared memory inside of the library, including the very first calls in the program.",
  ["schedules", "programs"], "all pairs of calls out of about 30 covering all parts of the library, all pairs of 9 ways of reading shared objects, all interleavings within a preemption bound, each from a fresh process state",
  "All tests are single threaded (apart from the spin lock one).",
  ["string.cpp", "base64.cpp", "unicode.cpp", "debug.cpp", "exception.cpp", "deserializer.cpp", "tree.hpp", "signal.hpp"],
  [("absence of hidden static state, constant tables", "base64.cpp, string.cpp, debug.cpp"), ("local buffers", "string.cpp")],
  "All schedules within the preemption bound over calls covering the whole library; vector-clock race detection on instrumented code (C library calls modelled).", THR)
p("C31", "Shared ownership across threads: one destruction, after everything else",
  "When several threads own the same object through shared or weak references, each through its own reference, the object stays alive until the last owner is gone and is destroyed exactly once, by a thread that sees everything the other owners did with it. A weak reference turned into a shared "
  "one gives either the living object or nothing, in every interleaving.",
  ["schedules", "histories"], "all interleavings (within a preemption bound) of 2-3 threads running all short scripts of copy, move, assign, drop, weaken and lock operations",
  "No test uses references from more than one thread.",
  ["shared_ref.hpp", "shared.hpp"], [("shared_ref copy/move/destruction", "shared_ref.hpp"), ("make_shared_from, weak references", "shared.hpp")],
  "All schedules of the real code within the preemption bound with vector-clock race detection.", THR)
p("C32", "Tick counter equals the clock in whole milliseconds, modulo 2^32",
  "At every moment the tick counter is the current clock reading in whole milliseconds truncated to 32 bits, so that differences of two readings give the elapsed milliseconds exactly, also across the wrap-around and around second boundaries, and it never goes back while the clock does not.",
  ["inputs", "histories"], "all instants in neighbourhoods of second boundaries, wrap-around points and type limits; all pairs of them; running clocks",
  "The test only sleeps once and compares roughly.",
  ["time.hpp", "time.cpp"], [("get_ticks_ms()", "time.cpp")],
  "The system clock functions are replaced by a controlled clock; all instants of the families are enumerated.")

p("C33", "A failure inside of an operation comes out; nothing leaks, is lost or damaged",
  "Whichever allocation of memory, copy, comparison or call of the user's code fails inside of an operation of the library, the operation either gives its complete and correct result or lets exactly that failure out as an exception: never a silently truncated result, another exception or termination. After a failure nothing is leaked, const arguments are unchanged, all objects are alive and valid; a tree (of vectors or lists) being modified and a signal are as before the operation (the tree possibly as after the completed one), a parser or deserializer whose read failed is where it was, and the same operation performed later gives the usual result.",
  ["fault_sequences", "inputs"], "all the fault points of each operation and input: only the k-th fails, or all starting from the k-th",
  "Tests never run out of memory and their functors and values never throw.",
  ["string.hpp", "string.cpp", "unicode.cpp", "base64.cpp", "tree.hpp", "signal.hpp", "shared_ref.hpp", "unique_ref.hpp", "linq.hpp", "sort.hpp", "utility.hpp", "exception.hpp", "exception.cpp", "deserializer.cpp"],
  [("cat(), join(), split(), word_wrap(), make_string_va_list()", "string.hpp"), ("traversal::insert(), insert_after(), erase()", "tree.hpp"), ("signal::connect(), emit()", "signal.hpp"), ("make_shared(), make_unique()", "shared_ref.hpp"), ("linq_collection_aggregator", "linq.hpp"), ("to_string(), current_exception_to_string(), stacked_exception::what()", "exception.hpp")],
  "operator new and the user's types are replaced by fault injecting ones which count blocks and objects; for each operation and input the position of the fault is enumerated until none is reached any more.")

P.sort(key=lambda x: x["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k not in ("note", "technique")}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="true",
         checks=[dict(property=x["id"], quick_cmd="python3 check.py %s --tier quick" % x["id"],
                      thorough_cmd="python3 check.py %s --tier thorough" % x["id"],
                      evidence_file="evidence/%s.json" % x["id"],
                      technique=x["technique"], level="model_checking", level_note=x["note"]) for x in P],
         not_applicable=[],
         notes="No hooks in /repo: threads are controlled through the compiler's -fsanitize=thread instrumentation with a runtime of our own (mc/sched.cpp).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

# DESIGN.md
ORACLE = {
 "C01": "owner/counter bookkeeping outside of the monitored memory, vector-clock race detector, value checks inside critical sections",
 "C02": "every schedule comes to its end; deadlock / livelock detector; a stopped holder of lock B does not stop users of lock A",
 "C03": "table driven encoder (limit, lead marker, tail length) written from RFC 2279",
 "C04": "sanitizers on exactly sized heap copies; decoded prefix by the reference decoder; mutual agreement of entry points",
 "C05": "bit-by-bit RFC 4648 encoder", "C06": "sanitizers; allowed outcomes: bounded result or std::invalid_argument",
 "C07": "cursor model (position, bytes assembled by hand)", "C08": "bytes extracted by division; guard bytes around",
 "C09": "recursive pre-order listing of the shape, with index paths", "C10": "nested list model edited by index path",
 "C11": "position in std::string, each operation by its documentation", "C12": "own digit arithmetic in 128 bits",
 "C13": "std::from_chars / strtod of the C library (correctly rounding, independent of fast_float) and constructed midpoints",
 "C14": "direct definitions by loops", "C15": "re-implementation of the breaking rule, plus order/width/no-loss invariants",
 "C16": "text constructed by hand and snprintf into a big enough buffer", "C17": "list of (id, behaviour) with a recursive emit",
 "C18": "owner counts per object; tracked objects count construction/destruction", "C19": "owner per object; tracked objects",
 "C20": "one pointer per singleton type", "C21": "event log of a small interpreter", "C22": "vector<bool> of items",
 "C23": "index loops", "C24": "plain loops / std::stable_sort of a copy", "C25": "ordered + permutation (multiset) check; identity of elements",
 "C26": "pointer + size", "C27": "list of (type, message) in chain order", "C28": "exit status and bytes received from a forked child",
 "C29": "128-bit / long double arithmetic; index of the alternative", "C30": "result of the same call made alone",
 "C31": "owner counts outside of the monitored memory; race detector; lifetime flags", "C32": "integer division of the controlled clock",
 "C33": "result of the same operation without faults; counts of live blocks and objects; contents before",
}
BOUNDS = {
 "C01": "2 threads x 2 rounds x 5 kinds of critical section, 3 preemptions (unbounded); 3 threads 2 (4); 4 threads 3 (6); stale loads 2 (3); long waits: holder releases after up to 2^22 attempts / 5000 yields of the waiter",
 "C02": "as C01 with 2-3 (3-6) preemptions; all 256 fill patterns of memory under a fresh lock; 70000 acquisitions in a row",
 "C03": "all codes < 2^21 and boundary blocks (all 2^31); texts of <= 4 (5) characters over 13 classes; lengths to 1400 (6000)",
 "C04": "all byte strings <= 2 (3); class strings <= 4 (5); 256 lead bytes x tails <= 5 (8)",
 "C05": "all inputs <= 3 bytes; boundary bytes <= 6 (8); lengths to 1100 (5000); all call pairs",
 "C06": "all byte strings <= 2 (3); class strings <= 6 (7); padding patterns <= 14 (17); lengths to 1030 (4100)",
 "C07": "all sequences of 3 (4) operations; every operation at every position of buffers <= 25 (39) bytes; sizes to SIZE_MAX",
 "C08": "all 8/16 bit; 32 bit/float by blocks of edge patterns (all 2^32); 64 bit patterns; 5 (6) operations in a row",
 "C09": "all forests <= 7 (9) nodes, vector/list/deque; 6 families of big shapes to 40 (120)",
 "C10": "all forests <= 7 (8) nodes x positions x operations; sequences of 3 (4); all erase masks while iterating; assignments between all pairs of nodes of forests <= 7 (8)",
 "C11": "all strings <= 5 (6) x operation pairs; sequences of 4 (5); all 256 characters; the same under an unusual global locale",
 "C12": "all strings <= 5 (6) over digits/signs/prefixes/others; all 8/16 bit values; boundaries of 32/64 bit; stride sweep; texts to 2^32 characters; unusual global locale",
 "C13": "all strings <= 6 (7) over the number alphabet; exponents +-380 (+-700); midpoints of all float / every 3rd (every) double binade; digit strings to 820 (2000); the numbers closest to the middle between two values for each power of ten; exact ties for every exponent; midpoints written with up to 1000 digits in 12 layouts; zero runs up to 10^6 compensated by the exponent; 4 rounding modes; float, double and long double; unusual global locale",
 "C14": "all strings <= 6 (8); all characters and delimiters; lengths to 1100 (4200), selected ones to millions; unusual global locale",
 "C15": "all texts <= 10 (12) over {letter, space, line feed...} x all widths; long texts",
 "C16": "all lengths to 4200 (20000), huge ones; all specifiers x boundary values; call pairs; indentation products to 300 (1100) and around 2^32",
 "C17": "histories of 6 (7) steps; up to 5 (6) callbacks x 7 behaviours; 2^11 (2^14) disconnect subsets",
 "C18": "histories of 4-5 (5-6) operations with state caching; chains of owners <= 6 (8)", "C19": "histories of 5-6 (6-7) operations; chains of owners <= 6 (8)", "C20": "histories of 4-5 (5-6) operations, 3 types",
 "C21": "1-3 guards x 8 functions x 5 actions x 5 ways out; guards in unwinding destructors; histories of 6 (7)", "C22": "all pairs of sets of enumerations <= 6 (7); 13 sizes to > 128 with 16x16 patterns; histories 4 (5)",
 "C23": "24 enumerations; all length pairs < 9 (20) x 9 container pairs; triples/quads; distances to 1200 (5000)",
 "C24": "all collections <= 6 (7) over 3 keys; chains; long collections", "C25": "all inputs <= 6 (7); all permutations of 8 (9); all 0/1 inputs <= 13 (16); lengths to 300 (1000), structured ones to 10^6 on a small stack; compile time",
 "C26": "all (size, offset, count) with size < 12 (20) and huge values; contents pairs <= 5 (6) over 3 values, floats and class types; buffers to 2^32 bytes",
 "C27": "all chains <= 4 (5) levels over all exception kinds; depth to 40 (120); messages to 600 (3000), selected to megabytes; bulky exception objects",
 "C28": "all forms x conditions x printers; adverse printers; log histories of 4 (5); 27 stream combinations; 4 situations (other thread, nested, noexcept, exit handlers); debug and release",
 "C29": "65536-value sweeps and boundary products; 2098 binades; 9-alternative visits in sequences of 4 (5)",
 "C30": "2 threads, all pairs of 29 calls and all pairs of 9 readings of shared objects with 1 (2) preemptions, the same call in both with 2 (3); schedule points at function entries and static memory accesses; optimised and unoptimised builds",
 "C31": "2 threads x 2-3 operations, 3 threads x 1, preemptions 2-3 (3-unbounded)", "C32": "instants around second boundaries, 2^32 ms wraps and limits; all pairs",
 "C33": "every fault position; 16+8+15 operations on texts, values, objects and collections, trees <= 3 (3) children x 2 (3) levels at every node, chains <= 3 (4) causes (thorough: reporting of failed assertions)",
}
rows = "\n".join("| %s | %s: %s | %s | %s |" % (x["id"], x["title"], x["quantifier"]["text"], ORACLE[x["id"]], BOUNDS[x["id"]]) for x in P)
sd = os.path.join(V, "seeded")
res = {}
try:
    res = json.load(open(os.path.join(V, "tools", "seeded_results.json")))
except OSError:
    pass
srows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    try:
        mj = json.load(open(os.path.join(sd, d, "meta.json")))
    except OSError:
        continue
    srows.append("| %s | %s | %s | %s | %s |" % (d, mj["property"], mj["what_it_breaks"].replace("|", "/"), mj["needs"].replace("|", "/"), res.get(d, "not run")))
t = open(os.path.join(V, "tools", "DESIGN.in.md")).read().replace("@@TABLE@@", rows).replace("@@SEEDED@@", "\n".join(srows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
