"""The table of checks: units (sources of harness/ with defines), rule (what a case is), etc."""
def parts(src, n, extra=""):
    return [(src, ("-DVPT_PART=%d " % i) + extra) for i in range(n)]

# compiled with the compiler's ThreadSanitizer instrumentation, run by harness/sched.cpp (no TSan runtime)
TSAN = "-fno-sanitize=address -fsanitize=thread -O1 -mllvm -tsan-instrument-func-entry-exit=0"
NOSAN = "-fno-sanitize=all -O2"
# undefined behaviour that gives other results once optimised
UB = "-fsanitize=signed-integer-overflow,shift,bounds,integer-divide-by-zero,null -fno-sanitize-recover=all"
UBLIB = "-lpthread -fsanitize=undefined"

def rel(units=None, flags="", share=0.4, **kw):
    """the same checks on the code of release builds (no assertion, other paths in radix trees, allocators...) for any x86-64"""
    return [dict(name="release", units=units, flags=("-DNDEBUG -march=x86-64 " + flags).strip(), share=share, **kw)]

CHECKS = {
 "C01": dict(
    units=parts("c01_devector.cpp", 3), scale=3,
    rule="a case is a generated history of ~40 operations (any of 34) on two devectors of one element type, compared with std::vector after each operation; non-trivial: at least 5 operations of which 2 grew the container and one inserted/erased inside or resized",
 ),
 "C02": dict(
    units=parts("c02_tiered.cpp", 8), scale=3,
    rule="a case is a generated history of ~40 operations (any of 33) on two tiered_vectors of one element type and bucket-size configuration, compared with std::vector; sizes up to 250 or 3000; non-trivial: at least 5 operations of which 2 grew the container and one inserted/erased inside or resized",
 ),
 "C03": dict(
    units=parts("c03_sequence.cpp", 8), scale=3,
    rule="a case is a generated history of ~40 operations (any of 30) on two sequences of one element type, compared with a list of (key, address, iterator) entries, so the stability of every reference and iterator is checked too; non-trivial: at least 5 operations of which 2 grew the container and one erased",
 ),
 "C04": dict(
    units=parts("c04_flat.cpp", 8), scale=3,
    rule="a case is a generated history of ~40 operations on two containers of one flat_set/map/multiset/multimap configuration (key type, comparator with state, stability), compared with a sorted vector model after each operation, with lookups through the key and heterogeneous key types; non-trivial: at least 5 operations, 3 insertions, one erasure and 4 elements at once",
 ),
 "C05": dict(
    builds=rel([0, 2, 4, 6, 8], share=0.6),
    units=parts("c05_radix.cpp", 11), scale=3,
    rule="a case is a generated history of ~40 operations on two radix_set/radix_map of one key family (integers of every width, floating point, pointers, strings of 1/2/4 byte characters, vectors, arrays, tuples, extracted keys), compared with a sorted vector model after each operation, with lookups and bounds through the key and heterogeneous key types and prefix searches; sizes up to 250 or 6000; non-trivial: at least 5 operations, 3 insertions, one erasure and 4 elements at once",
 ),
 "C06": dict(
    builds=rel([0, 2, 4], share=0.6),
    units=parts("c06_radix_hash.cpp", 6), scale=3,
    rule="a case is a generated history of ~40 operations on two radix_hash_set/map of one key type, with a hash functor that has a state (seed, quality from good to 4 values) and an equality that groups keys in classes, compared with an unordered association model after each operation; non-trivial: at least 5 operations, 3 insertions, one erasure and 4 elements at once",
 ),
 "C07": dict(
    builds=rel([0, 2, 4], "-DSEQ_NO_COMPRESSED_PTR", share=0.6),
    units=parts("c07_ordered.cpp", 5),
    rule="a case is a generated history of ~40 operations on two ordered_set/map of one key type, with a hash functor that has a state (seed, quality from good to one shared value) and an equality that groups keys in classes, compared after each operation with an ordered association model that also knows the address of every element; direct modifications of the sequence included; non-trivial: at least 5 operations, 3 insertions, one erasure and 4 elements at once",
 ),
 "C17": dict(
    units=parts("c17_algorithm.cpp", 8),
    rule="a case is one input range (runs of ascending/descending/random classes, up to 20000 elements, few distinct classes so that ties matter), one comparator, one buffer kind and one algorithm, compared with std::stable_sort/std::merge/std::inplace_merge or the definition, elements carrying their original rank; non-trivial: the input is not already in its final order and has the size the algorithm needs to do something (sort: 9, unique: a duplicate...)",
    technique="property-based testing: generated ranges against the std stable algorithms (differential, rank-tagged elements)",
 ),
 "C18": dict(
    builds=rel(share=1),
    units=parts("c18_bits.cpp", 2), scale=20,
    rule="a case is 20 to 60 generated words (powers of ten and neighbours, few or many bits, runs of ones, boundary patterns) given to every function of bits.hpp and compared with bit-by-bit definitions (8 and 16 bit words are enumerated completely); or an allocation history checked for alignment, overlap and content; part 1 builds the portable 128-bit multiplication; every case is non-trivial",
    technique="property-based testing: generated words against bit-by-bit definitions",
 ),
 "C25": dict(
    units=[("c25_tagged.cpp", "")], scale=40,
    rule="a case is a history of ~25 set_ptr/set_tag/set/construct/copy/set_full operations on two tagged pointers of one configuration against a (pointer, tag) model; non-trivial: at least 3 operations",
 ),
 "C19": dict(
    builds=rel(share=0.5),
    units=[("c19_hash.cpp", "")], scale=20,
    rule="a case is a few generated messages (length classes around the block sizes, up to 700 bytes; exact-size heap blocks under ASan, two alignments with different surroundings, single bit flips, word swaps, extensions; MurmurHash64A and FNV-1a compared with an independent implementation), or one value in all its representations (all string types and views, enumerations, smart pointers, pairs, tuples, floating point zeros); non-trivial: a message longer than one word, a string longer than 3, or any scalar/composite case",
    technique="property-based testing: metamorphic relations and differential against reference hash implementations",
 ),
 "C23": dict(
    units=[("c23_locks.cpp", TSAN), ("sched.cpp", NOSAN)], cxx="clang++",
    rule="a case is either a single-thread history of ~40 non-blocking lock operations against a (writer, readers) model, or 2-4 threads with generated programs of lock/try/timed/shared sections run by a deterministic scheduler whose preemptions (at any memory access or atomic operation) are generated; mutual exclusion, lost updates, happens-before of the protected data (vector clocks following the real memory orders), progress and the final state are checked; non-trivial: at least 5 operations, resp. at least 3 sections, one preemption and one contended acquisition",
    technique="property-based testing of schedules: generated preemptions in a deterministic scheduler, invariant and happens-before monitors, shrinking",
 ),
 "C08": dict(
    builds=rel([0, 2, 4], "-U__SSE2__", share=0.6),
    units=parts("c08_concurrent_st.cpp", 6), libs="-lpthread -ltbb",
    rule="a case is a generated single-thread history of ~40 operations (any of 20, insertions in 16 forms) on two concurrent_set/map of one key and value type, sharding level, hash functor with a state (seed, quality from good to 4 values) and equality that groups keys in classes, compared with a map model after each operation, visitor calls counted; up to 300 or 4000 elements; non-trivial: at least 5 operations, 3 insertions, one erasure and 4 elements at once",
 ),
 "C09": dict(
    units=[("c09_concurrent_mt.cpp", "-DVPT_PART=%d " % i + TSAN) for i in range(6)] + [("sched.cpp", NOSAN)], cxx="clang++",
    rule="a case is a prefilled concurrent_set/map (hash values chosen to share or spread buckets, tiny hashes and shards; capacity near the rehash threshold; sometimes just cleared) and 2-4 threads with generated programs of 1-6 operations on 1-4 hot keys (insertions in 10 forms, erasures, visits that read, modify or throw, visit_all, erase_if, clear, reserve, rehash, merge, copy, copy assignment, swap), run by a deterministic scheduler whose preemptions (at any memory access or atomic operation) are generated; per-key linearizability by search, happens-before of all accesses to elements, use after free, progress, leaks and final state are checked; non-trivial: one preemption taken, 3 operations of which 2 modify",
    technique="property-based testing of schedules: generated preemptions in a deterministic scheduler, linearizability and happens-before oracles, shrinking",
 ),
 "C10": dict(
    builds=rel([1, 3], "-DSEQ_NO_FAST_BSWAP"),
    units=parts("c10_string.cpp", 5),
    rule="a case is a generated history of ~30 operations (18 kinds, ~110 overloads, arguments of every string type, iterators of every category, arguments that are parts of the string itself, lengths beyond the end) on two tiny_strings of one character type, static size and allocator, compared with std::basic_string after each operation (content, terminator, capacity, iteration, allocator; no allocation below the static size); non-trivial: at least 5 operations of which 2 grew a string and one inserted/erased/replaced",
 ),
 "C11": dict(
    builds=rel([0, 2], "-DSEQ_NO_FAST_BSWAP"),
    units=parts("c11_string.cpp", 4),
    rule="a case is one text (alphabets of two letters to any bit pattern, periodic, lengths around the static sizes; views on exact-size heap blocks under ASan) and ~5 groups of queries: 46 searches of a related needle from any position, counts, comparisons in ~60 forms with a related text, copy/substr/conversions, concatenations, stream output, views; all compared with std::basic_string(_view); non-trivial: a text longer than 3",
    technique="property-based testing: differential against std::basic_string and std::basic_string_view",
 ),
 "C13": dict(
    units=parts("c13_int.cpp", 3, UB), libs=UBLIB, scale=4,
    rule="a case is one value (limits, powers of the base and neighbours, repeated digits, any number of bits) of one of 11 integral types written in one base 2-36 with one format into a buffer of exactly, fewer or more characters (exact-size heap blocks under ASan) and read back, or one text built from the grammar (spaces, signs, 0x, digits, overflow, look-alike characters) or from an alphabet, read in one base, for 5 character types; compared with std::to_chars and a direct reading of the documented syntax; non-trivial: more than one digit or a buffer too small, resp. a text longer than 1",
    technique="property-based testing: differential against std::to_chars, a grammar-based reader, and round trips",
 ),
 "C14": dict(
    units=parts("c14_float.cpp", 3, UB), libs=UBLIB, scale=4,
    rule="a case is one value (any bits, limits, powers of ten and neighbours, nines and halves, decimal texts) of one of 3 types written in one format, precision and options into an exact-size heap block (ASan) that is large enough and into a small one, then read back; or one text from the grammar (spaces, signs, nan, inf, digits up to 400, dots, exponents, incomplete forms, look-alike characters) or an alphabet, read in one format; compared with the shape printf would give, with strtold within half a unit of the last requested digit plus 4e-15 relative (float: 1e-6 when reading), and with the grammar; non-trivial: a value that is not 0, resp. a text of more than one digit",
    technique="property-based testing: shape and error bound against the long double value, a grammar-based reader, and round trips",
 ),
 "C15": dict(
    units=parts("c15_streams.cpp", 2, UB), libs=UBLIB,
    rule="a case is one content (integers, numbers, words, nan/inf, signs, line ends, spaces, any character including -1, up to thousands of characters) opened from any position through a buffer_input_stream, std_input_stream and file_input_stream objects with internal buffers of 1 to 300 characters over strings, files, and streams that deliver pieces of generated lengths, and ~30 operations (getc, read, back, seek, words, lines, numbers of 8 types in any base and format, set_state, close and reopen, positions past the end) run on all of them, compared after each with a direct reading of the content, and with from_chars for numbers; non-trivial: at least 4 operations, 2 readings, one move and 5 characters",
    technique="property-based testing: stateful model and differential between the kinds of streams",
 ),
 "C24": dict(
    units=parts("c24_iterators.cpp", 13), scale=1,
    rule="a case is one history of up to 30 operations (of ~34: insertions, erasures, resizes, ranges, assignments, copies, moves, sorts, merges, clears) on one container (devector, tiered_vector with blocks of several sizes, sequence, flat/radix/radix_hash/ordered sets and maps) of integers, strings or tracked objects, with up to 3000 elements; every few operations the iterators are compared with the ranks of a first traversal: all kinds of forward, backward and reverse traversals, iterator_at/pos/[]/at, +=, -=, +, -, [], differences and orders between generated ranks, and walks of jumps and steps; non-trivial: at least 2 elements when they are checked",
    technique="property-based testing: generated histories, positions as the model of iterators",
 ),
"C22": dict(
    units=parts("c22_copies.cpp", 14) + [("c22_functors.cpp", "")], scale=6,
    rule="a case is one history of up to 26 steps over three containers of one type (devector, tiered_vector, sequence, flat/radix/radix_hash/ordered/concurrent sets and maps, tiny_string) with stateful allocators (equal and unequal identities; every propagation trait, always-equal, select_on_container_copy_construction): any of ~34 operations on one of them, copy and move constructions with and without an allocator, copy and move assignments and swaps between two of them in any state, self assignments and swap, equality and order operators, modification of mapped values; after each step all three contents and allocators are compared with the model (another part does the same for containers whose comparator, or hash and equality, have a state that must go with the content); every block must return to the allocator that gave it; non-trivial: at least two operations between containers",
    technique="property-based testing: stateful model over pairs of containers with instrumented allocators",
 ),
 "C20": dict(
    units=parts("c20_exceptions.cpp", 14), scale=4,
    rule="a case is one history of up to 14 operations on one container (devector, tiered_vector, sequence, flat/radix/radix_hash/ordered/concurrent sets and maps, up to ~300 elements) of objects that count themselves and may throw, then one operation (of ~34, on one or several elements, with its own arguments) and 0-6 operations after it; the history and the operation run again and again, with an exception thrown at the 1st, 2nd, 3rd... point (copies, moves, comparisons, hashes, predicates, allocations, or some of these kinds) inside of the operation, for all of the first 24 points and then a sample; after each exception: contents (unchanged, or made of known elements, by container and operation), sizes, traversals both ways, order, uniqueness, lookups, then further operations, clear and reuse; live objects and blocks of memory are counted, accesses watched by ASan; non-trivial: at least one exception was thrown",
    technique="property-based testing: generated histories with systematic fault injection",
 ),
 "C21": dict(
    builds=rel([0,3,6,9,12], share=0.3),
    units=parts("c21_lifetimes.cpp", 14), scale=6,
    rule="a case is one history of up to ~60 steps (any of ~34 operations, copies, moves, swaps between three containers of one type, destruction in any state) with up to thousands of elements of counted objects that know their address (or relocatable ones that own memory), strings, over-aligned and large values, and allocators that remember the size and owner of each block; after each step the number of live objects must be the number of elements, and at the end nothing may remain; ASan watches every access; non-trivial: more than 3 steps and more than 3 elements",
    technique="property-based testing: generated histories with instrumented objects and allocators",
 ),
"C12": dict(
    units=parts("c12_any.cpp", 8, UB), libs=UBLIB, scale=6,
    rule="a case is one history of ~30 operations on four hold_any of one configuration (default, relocatable, not hashable, extended interface, small buffers of 8, 32, 48 and 64 bytes with alignments from 1 to 64): value construction, assignment, emplacement and make_any of 41 types (the 16 arithmetic types, 6 kinds of strings, small/large, relocatable or not, over-aligned, non assignable, move only, throwing on copy or move, pointers, functions, enumerations, without comparison), copies, moves, swaps, resets, nested vectors of hold_any and assignment of one of their elements to their holder, changes through references, failing constructors and allocations; every object knows its address and every block of memory is counted; observations: type, size, alignment, place, value, all comparisons between hold_any and with raw values and arrays, order laws, hashes, casts, streams, formats; non-trivial: at least 4 operations; or three arithmetic values or texts, close or equal across types, compared with each other",
    technique="property-based testing: stateful model with instrumented objects, fault injection, algebraic laws",
 ),
"C16": dict(
    units=parts("c16_format.cpp", 6, UB), libs=UBLIB,
    rule="a case is one formatting object: one value (13 integral types, 3 floating point types, 4 kinds of strings, pointers, objects with an operator<< that may use the module itself, the documented specialization for std::pair), or a composition of 2-6 elements (raw values, objects with options, slots, fmt within fmt, nested fmt, positions, joined ranges and arguments) with generated options (base, case, prefix, character, format, precision, dot, alignment, width, fill), then a history of ~4 changes (options, new values through the call operator in all its forms, null, pos, set, get, fill, reset); after each change the text is read through some of 9 ways (streams with other flags set, strings, tiny strings, append, exact-size buffers, truncating buffers, iterators) and compared with the concatenation of the rendered elements; non-trivial: at least one change",
    technique="property-based testing: stateful model of formatting objects, std::to_chars and seq::to_chars as renderers of numbers",
 ),
 "C26": dict(
    units=[("c26_split.cpp", UB)], libs=UBLIB, scale=6,
    rule="a case is one text (separators and letters, all kinds of spaces, any characters, nul; on an exact-size heap block under ASan), one of 5 matchers with a pattern that may come from the text and is inserted at its ends and next to itself, and one of 4 skip rules; the range of split() is compared with a direct reading of the rules (also post increment, several passes, equality, pieces inside of the source), join(split()) with the text, replace() with the leftmost non overlapping substitution; non-trivial: more than one piece, resp. one occurrence",
    technique="property-based testing: reference implementation and round trip",
 ),
}
