#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "devector behaves as a double-ended sequence",
 "After any sequence of devector operations (insertion, emplacement, removal, resize and reserve at the front, the back or anywhere, assignment, copy, move, swap, shrink), size, element order and every element value are exactly those of an abstract sequence given the same operations, for any element type, including arguments that refer to elements of the same container. Returned iterators and references designate the element the operation documents, reserve calls deliver the requested free slots, and out-of-range at() throws std::out_of_range.",
 ["histories", "inputs", "configurations"], "all operation histories, element types (trivial, relocatable, non-relocatable, move-only) and capacities at either end",
 "Existing test runs one scripted history with a few element types; front/back capacity interplay, self-referencing arguments and relocatable fast paths depend on the whole history.",
 ["seq/devector.hpp"], [("grow_back / grow_front / move_destroy_input", "seq/devector.hpp DEVectorData"), ("emplace, insert, erase", "seq/devector.hpp devector")],
 [("data/start/end/capacity", "storage and live window", "seq/devector.hpp DEVectorData")], ["devector public API"])

prop("C02", "tiered_vector behaves as a random-access sequence",
 "After any sequence of tiered_vector operations at any position (insert, emplace, erase, push/pop at both ends, resize and resize_front, assign, range operations, sort through iterators, copy, move, swap, clear), size, element order and every element value are exactly those of an abstract sequence given the same operations. This holds for every element type, every minimum/maximum bucket size and every container size, through indexing, iterators, reverse iterators and for_each alike.",
 ["histories", "inputs", "configurations"], "all operation histories, container sizes, bucket size parameters and element types",
 "Bucket sizes change with container size and circular buffers wrap at history-dependent places; tests use a handful of fixed sequences.",
 ["seq/tiered_vector.hpp"], [("circular buffers", "seq/tiered_vector.hpp CircularBuffer"), ("bucket resizing", "seq/tiered_vector.hpp check_bucket_size/update_bucket_size"), ("insert_left/insert_right/erase_left/erase_right", "seq/tiered_vector.hpp BucketManager")],
 [("d_buckets", "array of circular buckets", "seq/tiered_vector.hpp BucketManager")], ["tiered_vector public API"])

prop("C03", "sequence is an ordered list with stable references",
 "After any sequence of operations on seq::sequence (insertions and removals at both ends, unordered insert, erase of elements and ranges, resize, sort, assignment, copy, move, swap, shrink_to_fit), its traversal yields exactly the values an abstract list would hold: push_back/push_front keep end order, insert() adds the value exactly once anywhere, erase removes exactly the designated elements, sort yields an ordered permutation that keeps equal elements in order. Iterators and references to elements not erased stay valid and designate the same element across every operation not documented to invalidate them.",
 ["histories", "inputs", "configurations"], "all operation histories and element types, with holes left by erasures at any slot",
 "The module's own test aborts before finishing (sort); slot reuse after erasures and the free list depend on the full history.",
 ["seq/sequence.hpp"], [("64-slot chunks with occupancy mask", "seq/sequence.hpp list_chunk"), ("free chunk list", "seq/sequence.hpp make_chunk/remove_free_node"), ("sort / shrink_to_fit", "seq/sequence.hpp")],
 [("used mask", "which slots are live", "seq/sequence.hpp list_chunk")], ["sequence public API, addresses of elements"])

prop("C04", "flat sets and maps behave as sorted associative containers",
 "For any history of operations, flat_set and flat_map hold exactly the unique keys (and mapped values) a std::set/std::map would, and flat_multiset and flat_multimap the same multiset of elements as their std counterparts, always traversed in comparator order. Lookups (find, contains, count, lower_bound, upper_bound, equal_range, and the _pos variants), insert/try_emplace/insert_or_assign/emplace/emplace_hint/erase/merge results, range insertion and extract/replace agree with the std model; range insertion keeps the first of equivalent keys when the container is stable.",
 ["histories", "inputs", "configurations"], "all operation histories, comparators (including descending and transparent), key types and sizes",
 "Binary search over tiered buckets, range insertion by append-sort-merge and hints interact with container size; tests sample a few histories.",
 ["seq/flat_map.hpp", "seq/internal/binary_search.hpp", "seq/tiered_vector.hpp"], [("binary search over buckets", "seq/flat_map.hpp tvector_lower_bound/tvector_binary_search"), ("range insert, sort, merge, unique", "seq/flat_map.hpp flat_tree::insert")],
 (), ["flat_set/map/multiset/multimap public API"])

prop("C05", "radix_set and radix_map behave as sorted associative containers",
 "For any history of insertions, erasures, bulk operations, copies and swaps, radix_set and radix_map hold exactly the keys (and mapped values) of a std::set/std::map ordered by the key's natural order: signed and unsigned integers numerically, floating point numerically, strings and other data()/size() keys lexicographically, tuples lexicographically by member. find, contains, count, lower_bound, upper_bound, equal_range, prefix and prefix_range, bidirectional traversal and erase results agree with the model whatever the key distribution (shared prefixes, embedded zeros, prefixes of each other, dense or clustered integers).",
 ["histories", "inputs", "configurations"], "all histories, key types and key distributions",
 "Tree shape (directory merging, prefix compression, deep vector leaves, rebalancing on erase) depends on key bits and history; tests use random or linear keys only.",
 ["seq/radix_map.hpp", "seq/internal/radix_tree.hpp"], [("directory growth and level merging", "seq/internal/radix_tree.hpp"), ("leaf nodes and vector nodes", "seq/internal/radix_tree.hpp"), ("lower/upper bound and prefix search", "seq/internal/radix_tree.hpp")],
 (), ["radix_set/radix_map public API"])

prop("C06", "radix_hash_set and radix_hash_map behave as unordered containers",
 "For any history of operations and any hash function consistent with key equality (including constant and clustered ones), radix_hash_set and radix_hash_map hold exactly the keys and mapped values of the std::unordered_set/map given the same history; every traversal visits each element exactly once. insert, emplace, try_emplace, insert_or_assign, operator[], at, find, count, contains, erase (by key, iterator, range), erase_if, rehash, reserve, swap and copies return and leave what the model predicts.",
 ["histories", "inputs", "configurations"], "all histories, key types and hash functions",
 "Collision handling, incremental rehash and iteration across erasures depend on hash distribution and history.",
 ["seq/radix_hash_map.hpp", "seq/internal/radix_tree.hpp"], [("hash tree insert/erase", "seq/internal/radix_tree.hpp"), ("vector nodes for exhausted hash bits", "seq/internal/radix_tree.hpp")],
 (), ["radix_hash_set/map public API"])

prop("C07", "ordered_set and ordered_map: hash table keeping insertion order",
 "For any history and any hash function consistent with key equality (including constant ones), ordered_set and ordered_map hold exactly the keys and mapped values of the std unordered model, each once; elements appended or prepended with push/emplace back/front stay in the order so produced, sort orders the traversal and keeps every lookup working. After direct modification of the underlying sequence, keyed operations throw std::logic_error until rehash(), which removes later duplicates and restores all lookups; iterators and references to remaining elements survive insertions, rehashes and erasures of other elements.",
 ["histories", "inputs", "configurations"], "all histories, key types, load factors and hash functions",
 "Robin-hood distances, backward shift, overflow to linear probing with tombstones depend on hash values and history.",
 ["seq/ordered_map.hpp", "seq/sequence.hpp"], [("robin hood table with overflow to linear probing", "seq/ordered_map.hpp SparseFlatNodeHashTable"), ("dirty flag", "seq/ordered_map.hpp mark_dirty/check_hash_operation")],
 (), ["ordered_set/map public API"])

prop("C08", "concurrent_map/set used by one thread behave as a map",
 "For any history of single-threaded operations, any sharding level and any hash function consistent with equality, concurrent_set and concurrent_map hold exactly the keys and values of an unordered model. Every operation (insert, emplace, try_emplace, insert_or_assign, the *_or_visit and *_or_cvisit forms, visit, cvisit, visit_all, count, contains, erase with or without predicate, erase_if, merge, clear, rehash, reserve, swap, copy, move, comparison, range and initializer-list construction) returns and visits exactly what the model predicts, calling the visitor exactly once on the designated element.",
 ["histories", "inputs", "configurations"], "all histories, sharding levels, hash functions and key types",
 "Chained buckets, shrinking chains and rehash thresholds depend on hash distribution and history; tests use well-distributed hashes.",
 ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp"], [("bucket + chained nodes", "seq/internal/concurrent_hash_table.hpp"), ("rehash", "seq/internal/concurrent_hash_table.hpp")],
 (), ["concurrent_set/map public API"])

prop("C09", "concurrent_map/set operations are atomic under concurrency",
 "When several threads run operations on a concurrent_set or concurrent_map at once (including while it rehashes), the results of the per-key operations, seen together, are explained by some sequential order of those operations on each key consistent with their real-time order: no insertion, erasure or update through a visitor is lost, duplicated or resurrected, and no two threads insert the same key successfully without an erase between. Once all threads have finished, size, visit_all and lookups agree with that order, and a visitor never observes a half-modified value.",
 ["schedules", "histories", "configurations"], "all interleavings of concurrent operations, thread counts, key contention levels and sharding levels with concurrency enabled",
 "Tests run uniform workloads and only compare final counts; races at rehash or on contended keys need particular interleavings.",
 ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp", "seq/lock.hpp"], [("per-bucket locks held to end of rehash", "seq/internal/concurrent_hash_table.hpp"), ("grow-only shared lock array", "seq/internal/concurrent_hash_table.hpp")],
 (), ["per-operation results and visitor observations"])

prop("C10", "tiny_string modifiers behave as std::basic_string",
 "For any history of construction, assignment, append, insert, erase, replace, resize, push/pop, reserve, shrink_to_fit, swap, copy and move, and any in-place capacity and character type, a tiny_string holds exactly the characters and length a std::basic_string would, including embedded null characters and arguments that alias the string itself. It is always null-terminated, its capacity is never below its size nor below what was reserved, and positions past the end throw std::out_of_range as in std::basic_string.",
 ["histories", "inputs", "configurations"], "all histories, static sizes, character types, lengths around every in-place/heap boundary",
 "The in-place/heap encoding switches at length boundaries that differ per static size; tests sample few lengths.",
 ["seq/tiny_string.hpp"], [("SSO layout without bookkeeping byte", "seq/tiny_string.hpp string_internal"), ("replace/insert/erase internals", "seq/tiny_string.hpp tiny_string")],
 (), ["tiny_string public API"])

prop("C11", "tiny_string and its views compare, search and hash as std::string",
 "For any two character sequences, tiny_string of any in-place capacity and its string view give the same results as std::basic_string(_view) for all six comparisons, compare(), the find family (find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of, with every position), substr, copy, count-free access and stream input/output. Mixed comparisons with std::string, string views and C strings agree, and equal strings have equal seq::hasher values whatever their representation.",
 ["inputs", "configurations"], "all pairs of strings, positions, static sizes and string representations",
 "Search uses word-at-a-time and SSO-specific code whose errors depend on length, position and alignment.",
 ["seq/tiny_string.hpp", "seq/hash.hpp"], [("traits_string_* helpers", "seq/tiny_string.hpp detail"), ("memrchr and common-byte counting", "seq/tiny_string.hpp")],
 (), ["tiny_string observers, operators, hasher"])

prop("C12", "any: value semantics, comparison, hashing and casts",
 "A hold_any constructed, assigned, emplaced, copied, moved or swapped holds exactly the given value and type whatever its size, alignment, triviality or relocatability and whatever the small-buffer configuration, and each held object is destroyed exactly once. Equality, ordering and hashing follow the documented rules across types (arithmetic values compare by value across arithmetic types, string-like objects by content, unrelated types by type id, empty first), form consistent equivalence and strict weak orders on values of comparable types, and equal values hash equally; casts between arithmetic and string types yield the documented conversion or throw std::bad_cast.",
 ["histories", "inputs", "configurations"], "all value types and values, small buffer sizes, histories of assignments",
 "Tag-dependent fast paths for trivial/relocatable types and cross-type comparisons form a product space; tests pick single instances.",
 ["seq/any.hpp"], [("tagged type info pointer and fast paths", "seq/any.hpp hold_any"), ("arithmetic and string comparison tables", "seq/any.hpp detail")],
 (), ["hold_any public API"])

prop("C13", "Integer/text conversion is exact in both directions",
 "For every integral type and value, every base from 2 to 36 and every buffer size, to_chars writes the same digits as std::to_chars (plus the requested prefix, upper case and zero padding) or reports value_too_large without writing past the buffer. from_chars reads such text back to the same value and stops at the same place as std::from_chars up to the documented extensions (leading spaces, '+', '0x'), never reading past the end of its input, and this for every character type.",
 ["inputs", "configurations"], "all integral values, widths, bases, format options, buffer sizes and character types",
 "Digit-count tables and boundary values (limits, powers of the base) are a sparse subset of inputs.",
 ["seq/charconv.hpp", "seq/bits.hpp"], [("write_integral", "seq/charconv.hpp"), ("read_integral", "seq/charconv.hpp")],
 (), ["to_chars, from_chars"])

prop("C14", "Floating point/text conversion is close, complete and bounded",
 "For every finite floating point value, format and precision, to_chars writes text of the requested shape (fixed, scientific or general, with the requested precision, dot and exponent characters) whose value differs from the true value by at most the documented inexactness, writes nan and inf as such, and never writes outside the buffer. from_chars accepts exactly the documented syntax, consumes the whole number, gives values within the documented inexactness of strtod, saturates overflow to infinity and underflow to zero, and never reads outside its input.",
 ["inputs", "configurations"], "all floating point values and texts, formats, precisions, buffer sizes and character types",
 "Exponent range, rounding carries and precision form a vast space; tests use random values in a narrow range.",
 ["seq/charconv.hpp"], [("write_double", "seq/charconv.hpp"), ("read_double", "seq/charconv.hpp")],
 (), ["to_chars, from_chars"])

prop("C15", "Input streams read the same content however it is delivered",
 "Reading words, lines, characters and numbers with from_stream and read_line_from_stream gives the same sequence of values and end-of-input reports from a memory buffer, a std::istream and a file, whatever the internal buffer size and however the underlying stream splits its data into chunks. tell, seek and back move to the position they name, and reading past the end reports end of stream without inventing data.",
 ["inputs", "histories", "configurations"], "all contents, read histories, buffer sizes and chunkings",
 "Refill boundaries can fall inside any token; tests read one stream.",
 ["seq/charconv.hpp"], [("buffer refill", "seq/charconv.hpp std_input_stream/file_input_stream"), ("back/seek/tell", "seq/charconv.hpp")],
 (), ["from_stream, read_line_from_stream, stream classes"])

prop("C16", "format produces the documented layout for every composition",
 "For any values and options, a formatting object outputs the same text through every route (stream, std::string, tiny_string, append, unbounded and bounded buffer, iterator), the text being the value formatted with the requested base, precision, case, prefix and character options, then aligned, padded or truncated to the requested width with the fill character. Composed formats (several arguments, join, nested formats, slots and positional replacement) output the concatenation of their parts with replaced values and unchanged options, and bounded output never writes past the given size while reporting the full length.",
 ["inputs", "histories", "configurations"], "all values, options, nestings, replacement histories and output routes",
 "Options compose multiplicatively; tests check a few literal outputs.",
 ["seq/format.hpp", "seq/charconv.hpp"], [("width and alignment", "seq/format.hpp width_format"), ("multi-argument formatting and slots", "seq/format.hpp mutli_ostream_format")],
 (), ["fmt, join, str, append, to_chars"])

prop("C17", "Sorting and merging algorithms are correct and stable",
 "For any input range (random access or bidirectional), any strict weak ordering and any buffer (none, any user size, or the library's buffer kinds), net_sort and net_sort_size leave a sorted permutation of the input with equivalent elements in their original order. merge and inplace_merge give the same stable result as their std counterparts, reverse_descending reverses a non-increasing range keeping equal elements in order, and unique keeps exactly the first occurrence of each value in order.",
 ["inputs", "configurations"], "all ranges (length, order patterns, duplicates), comparators, iterator categories, element types and buffer sizes",
 "Run detection, sorting networks and buffer-limited merging each trigger on specific length/pattern/buffer combinations.",
 ["seq/algorithm.hpp"], [("run detection and ping-pong merges", "seq/algorithm.hpp"), ("buffer-limited inplace merge", "seq/algorithm.hpp merge_adaptive_n")],
 (), ["net_sort, net_sort_size, merge, inplace_merge, reverse_descending, unique"])

prop("C18", "Bit manipulation functions compute their mathematical definition",
 "For every input word, population counts, bit scans in both directions, digit counts, nth-set-bit, consecutive-bit search, byte swaps, bit reversal, 128-bit multiplication, endian-aware reads and writes of 16/32/64-bit and size_t words give the value of their mathematical definition, and equal results at compile time where offered. Aligned allocation returns distinct usable blocks with the requested alignment.",
 ["inputs"], "all words, positions, sizes and alignments",
 "Portable fallbacks and intrinsics differ on sparse inputs; there is no bits test module.",
 ["seq/bits.hpp"], [("intrinsic wrappers and fallbacks", "seq/bits.hpp")], (), ["bits.hpp functions"])

prop("C19", "Hashing is consistent with equality and independent of layout",
 "Hash values depend only on the hashed value: hashing the same bytes gives the same result at every address and alignment, whatever surrounds them, never reading outside them, and equal keys hash equally through every representation (arithmetic, enumerations, pointers and smart pointers, pairs, tuples, all string types and views, C strings). hash_combine, hash_finalize and the byte hashes depend on every input bit, the hash of a composite changes when a member changes, and murmur and fnv1a match their published definitions.",
 ["inputs", "configurations"], "all byte strings (length, content, alignment) and key types",
 "Tail handling depends on length modulo block size and alignment; tests never call the hash functions directly.",
 ["seq/hash.hpp", "seq/internal/hash_impl.hpp", "seq/internal/hash_utils.hpp"], [("hash_bytes_*", "seq/internal/hash_impl.hpp"), ("hasher specialisations", "seq/hash.hpp")], (), ["hasher, hash_bytes_*"])

prop("C20", "Containers survive exceptions thrown by elements and allocators",
 "If an element constructor, copy, move, comparison or hash, a predicate, or an allocation throws at any point inside any container operation (for radix and concurrent containers: construction and copy of elements, and allocations; their moves, hashes and comparisons are expected not to throw), the exception reaches the caller, or the operation completes fully without it. Nothing leaks, nothing is destroyed twice, and the container stays valid: it can be traversed both ways, its size equals the number of elements traversed, sets and maps find exactly their elements, in order and without duplicates, it holds only values put into it, and it accepts further operations, clear() and reuse. Where a move throws or an operation on several elements is interrupted, sequential containers may also hold moved-from or default constructed elements, flat containers may hold them in any order, and sort()/shrink_to_fit() of ordered sets and maps may leave some; an ordered set or map that reports being dirty is usable again after rehash(). Operations documented with a strong guarantee (single insertions of sequence and ordered containers, devector operations if moves do not throw, copy constructors) leave the contents unchanged.",
 ["fault_sequences", "histories", "configurations"], "all operations, preceding histories and fault points, for every container",
 "Tests throw at one fixed countdown for a few types; every throw point inside every operation is a separate path.",
 ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/internal/radix_tree.hpp", "seq/internal/concurrent_hash_table.hpp"],
 [("try/catch rollback in each container", "seq/*.hpp")], (), ["container state after a thrown exception"])

prop("C21", "Every element and every allocation is released exactly once",
 "Over any history of operations on any container, string or any object ending in destruction, each constructed element is destroyed exactly once and never used before construction or after destruction, and each block of memory is returned exactly once, with the size it was requested with, to an allocator equal to the one that provided it. No operation reads or writes memory outside live blocks, and moved-from containers remain usable.",
 ["histories", "configurations"], "all histories, element types and (stateful) allocators, for every container",
 "Leaks or mismatched releases on rarely taken growth, shrink or merge paths do not change observable contents.",
 ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/radix_map.hpp", "seq/radix_hash_map.hpp", "seq/concurrent_map.hpp", "seq/tiny_string.hpp", "seq/any.hpp"],
 [("allocate/deallocate pairs, destroy loops, relocation by memcpy", "seq/*.hpp")], (), ["instrumented element types and allocators"])

prop("C22", "Copies are independent; moves and swaps transfer the content",
 "For every container, a copy (constructed or assigned, with or without an allocator argument, over any previous content) equals its source and neither is affected by later changes to the other; a move or swap transfers exactly the source's content. Equality and ordering operators agree with the element-wise (or set-wise) comparison of contents, self-assignment and self-swap change nothing, and allocators propagate as the allocator's traits say (swaps between unequal allocators that do not propagate are excluded, as for standard containers).",
 ["histories", "configurations"], "all pairs of container states, allocators (equal, unequal, every propagation trait) and follow-up histories",
 "Assignment reuses storage and structure of the target, so outcomes depend on both states; tests copy in a few states.",
 ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/radix_map.hpp", "seq/radix_hash_map.hpp", "seq/concurrent_map.hpp", "seq/tiny_string.hpp"],
 [("copy/move/swap members and allocator helpers", "seq/utils.hpp copy_allocator/swap_allocator/assign_allocator/move_allocator")], (), ["container contents and allocators"])

prop("C23", "Locks exclude as documented",
 "At no time do two threads hold a spinlock, or an exclusive shared_spinner lock together with any other holder; shared holders may coexist. A successful try_lock (or timed try) owns the lock, a failed one does not and changes nothing, unlock always lets a waiter proceed, and is_locked reports ownership.",
 ["schedules", "histories"], "all interleavings and histories of lock, unlock, try and timed operations",
 "No test addresses the locks directly; exclusion failures need contended interleavings.",
 ["seq/lock.hpp"], [("spinlock", "seq/lock.hpp"), ("shared_spinner", "seq/lock.hpp")], (), ["lock.hpp classes"])

prop("C24", "Iterators of every container obey their category's laws",
 "In any reachable state of any container, incrementing from begin reaches end after exactly size steps, decrementing from end retraces the same elements in reverse, reverse iterators mirror forward ones, and const and non-const traversals agree. Random-access iterators additionally satisfy it+n, it-n, it[n], differences and ordering exactly as positions do, including offsets crossing internal blocks, and iterator_at/pos designate the element at that rank.",
 ["histories", "inputs"], "all reachable container states, positions and offsets",
 "Iterators cross internal chunk boundaries whose places depend on history; tests mostly iterate forward.",
 ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/internal/radix_tree.hpp"],
 [("chunked iterators", "seq/tiered_vector.hpp, seq/sequence.hpp, seq/internal/radix_tree.hpp")], (), ["iterators"])

prop("C25", "Tagged pointers keep pointer and tag apart",
 "For any pointer with the alignment its type guarantees and any tag within the advertised number of bits, a tagged_pointer returns exactly the pointer and the tag last set, and setting one never changes the other.",
 ["inputs", "histories"], "all aligned pointers, tags and set histories", "No test addresses tagged_pointer directly.",
 ["seq/tagged_pointer.hpp"], [("bit packing", "seq/tagged_pointer.hpp")], (), ["tagged_pointer"])

prop("C26", "split and replace give exactly the parts and text defined",
 "For any text, any matcher (string, character, set of characters, complement of a set, word) whose matches occur anywhere, next to each other, at both ends or never, and any skip behaviour, split visits exactly the non-skipped parts between successive matches, left to right and in order (every single character when the matcher is an empty string or set), as views of the source text, in any number of passes. Joining the parts of an unskipped split with the separator gives back the text, and replace substitutes every non-overlapping occurrence, left to right, and nothing else.",
 ["inputs", "configurations"], "all texts, matchers, skip behaviours, source string types and character types",
 "Adjacent, leading and trailing matches and skipped last parts are boundary cases; tests use one literal sentence.",
 ["seq/format.hpp"], [("SplitIter", "seq/format.hpp detail::SplitIter"), ("replace", "seq/format.hpp replace")], (), ["split, join, replace"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
