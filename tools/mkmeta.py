#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props as PR

I = 'include/sfl/'
SEQF = [I + c + '.hpp' for c in ('vector', 'small_vector', 'static_vector', 'compact_vector', 'devector', 'segmented_vector', 'segmented_devector')]
SMALLA = [I + 'small_%s.hpp' % c for c in ('flat_set', 'flat_map', 'flat_multiset', 'flat_multimap', 'unordered_flat_set', 'unordered_flat_map', 'unordered_flat_multiset', 'unordered_flat_multimap')]
STATICA = [f.replace('small_', 'static_') for f in SMALLA]
ASSOCF = SMALLA + STATICA
PRIV = I + 'private.hpp'
ALLF = SEQF + ASSOCF + [PRIV]
TESTS = 'The existing tests call each operation a few times on fixed small values'


def fam(*names):
    return [f for f in ASSOCF if any(f.endswith('_' + n + '.hpp') for n in names)]


ORD = [f for f in ASSOCF if 'unordered' not in f]
UNI = [f for f in ASSOCF if 'multi' not in f]


def P(pid, title, statement, over, text, why, files, mech, level_note, technique='model-based property testing', observe=None):
    return dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ['public member functions and iterators']),
                _note=level_note, _tech=technique)


NOTE = 'Sampled: holds for the generated cases only. Trusts the reference model, the instrumented element, allocator and iterator types in src/, and the compiler.'

ALL = [
    P('C01', 'Contiguous vectors behave as the sequence their history defines',
      'After any history of operations on vectors, small vectors, static vectors and compact vectors, the elements, their order, the size and every returned iterator, reference and value are exactly those a plain mathematical sequence would give. Storage is contiguous and iteration, indexing, front, back, data and nth/index_of agree with each other. This holds for every element type the container supports (copyable, move-only, copy-only, trivial, throwing, and the built-in and standard library types), every allocator, and every internal capacity.',
      ['histories', 'inputs', 'configurations'], 'All sequences of constructors, assignments, insertions, erasures, resizes, swaps and lookups, at every position and with every count, over several containers of one type.',
      TESTS + '; they do not reach the combinations of size, capacity, position, count and element type that select among the many code paths of an insertion.', SEQF[:4] + [PRIV],
      [('insertion and growth paths (spare capacity, partial overlap, reallocation)', I + 'vector.hpp'), ('internal storage transitions', I + 'small_vector.hpp'), ('uninitialized and overlapping algorithms', PRIV)], NOTE),
    P('C02', 'devector behaves as the double-ended sequence its history defines',
      'After any history of operations at both ends and in the middle of a devector, its elements, order, size and all returned iterators and values are exactly those a plain sequence would give. Neither which end has spare capacity nor when it reallocates is visible in the contents. This holds for every element type, the built-in and standard library types included.',
      ['histories', 'inputs', 'configurations'], 'All operation histories, with every distribution of spare capacity between the front and the back.',
      TESTS + '; which of the front, back and reallocating paths runs depends on where earlier operations left the spare capacity.', [I + 'devector.hpp', PRIV],
      [('choice of the end to shift towards, recentering and reallocation', I + 'devector.hpp')], NOTE),
    P('C03', 'Segmented containers behave as the sequence their history defines',
      'After any history of operations on a segmented vector or segmented devector, for every segment length, the elements, order, size and all returned iterators and values are exactly those a plain sequence would give, including when operations start, end or empty exactly at a segment boundary, and for every element type, the built-in and standard library types included.',
      ['histories', 'inputs', 'configurations'], 'All operation histories for segment lengths 1, 2, 3 and 8, single- and double-ended.',
      TESTS + ' and one or two segment lengths; boundaries between segments and growth of the table of segments only meet every operation in long random histories.', SEQF[5:7] + [PRIV],
      [('segment table growth at both ends', I + 'segmented_devector.hpp'), ('segment-wise copy, move and fill algorithms', PRIV)], NOTE),
    P('C04', 'Ordered flat sets and maps are sorted, unique models of std::set and std::map',
      'After any history, an ordered flat set or map holds strictly increasing keys by its comparator, and contents, lookups, bounds and insertion results are those of std::set/std::map with that comparator. Of equivalent keys the first inserted is kept. This holds for every key and mapped type and every comparator, the built-in and standard library ones included.',
      ['histories', 'inputs', 'configurations'], 'All histories, comparators (including ones with many equivalent keys and reversed order) and element types, small and static.',
      TESTS + ' with std::less; equivalent-but-different keys, other orders and long histories are not sampled.', fam('flat_set', 'flat_map') and [f for f in ORD if 'multi' not in f] + [PRIV],
      [('binary search and insertion at the found position', I + 'small_flat_set.hpp'), ('try_emplace, insert_or_assign, operator[]', I + 'small_flat_map.hpp')], NOTE),
    P('C05', 'Ordered flat multisets and multimaps hold every inserted element, sorted',
      'After any history, an ordered flat multiset or multimap holds its keys in non-decreasing order by its comparator with exactly the inserted minus the erased elements, and count, bounds, equal_range, find and erase agree with that content. Insertions and erasures keep the relative order of the other elements. This holds for every key and mapped type and every comparator, the built-in and standard library ones included.',
      ['histories', 'inputs', 'configurations'], 'All histories, comparators and element types, small and static.',
      TESTS + '; runs of equivalent elements of every length at every position are not sampled.', [f for f in ORD if 'multi' in f] + [PRIV],
      [('insertion at the bound', I + 'small_flat_multiset.hpp'), ('equal_range based erase and count', I + 'small_flat_multimap.hpp')], NOTE),
    P('C06', 'Unordered flat sets and maps hold exactly one element per key',
      'After any history, an unordered flat set or map holds exactly one element per equivalence class of keys by its key_equal, with the contents and results of std::unordered_set/std::unordered_map, and iteration visits each element exactly once. This holds for every key and mapped type and every key_equal, the built-in and standard library ones included.',
      ['histories', 'inputs', 'configurations'], 'All histories, key_equal functions and element types, small and static.',
      TESTS + '; which element moves into the gap of an erased one depends on the history.', [f for f in ASSOCF if 'unordered' in f and 'multi' not in f] + [PRIV],
      [('search before append, swap-with-last erase', I + 'small_unordered_flat_set.hpp')], NOTE),
    P('C07', 'Unordered flat multisets and multimaps hold exactly the inserted elements',
      'After any history, an unordered flat multiset or multimap holds exactly the inserted minus the erased elements with their multiplicities, and count, find, contains and erase by key agree with that content for its key_equal. This holds for every key and mapped type and every key_equal, the built-in and standard library ones included.',
      ['histories', 'inputs', 'configurations'], 'All histories, key_equal functions and element types, small and static.',
      TESTS + '; erase by key while the last elements are themselves matches is not sampled.', [f for f in ASSOCF if 'unordered' in f and 'multi' in f] + [PRIV],
      [('erase by key and erase_if with swap-with-last', I + 'small_unordered_flat_multiset.hpp')], NOTE),
    P('C08', 'An exception leaves every container valid, leak-free and usable',
      'Whatever constructor, assignment, move, comparison, predicate or allocation throws at whatever point of any operation, the container afterwards is in a valid state: size and contents agree, every element is a live object, nothing leaks and it can be used, assigned and destroyed. If moving elements does not throw, associative containers also remain sorted and free of equivalent keys.',
      ['fault_sequences', 'histories', 'inputs'], 'Every fault point of an operation, after every history.',
      'The tests inject few failures at fixed points; each operation has a different number of throw points in each of its code paths and states.', ALLF,
      [('try/catch clean-up in uninitialized algorithms', PRIV), ('guards in insertion, assignment and constructors', I + 'devector.hpp')],
      'For the chosen operation of each generated case every throw point is enumerated; operations and states are sampled. ' + NOTE, 'fault enumeration over generated histories'),
    P('C09', 'Operations documented or built as all-or-nothing have no effect when they throw',
      'reserve, shrink_to_fit, appending or resizing at an end (for elements that are nothrow-movable or copyable; default-initialised growth of compact_vector excepted), single-element insertions whose allocation fails, and operations rejected with std::length_error or std::out_of_range leave the container exactly as it was when they throw.',
      ['fault_sequences', 'histories', 'inputs'], 'Every fault point of those operations, after every history.',
      'The tests check a handful of throwing points in push_back and reserve.', ALLF,
      [('construct in new storage before releasing the old one', I + 'vector.hpp'), ('move_if_noexcept on reallocation', PRIV)],
      'For the chosen operation of each generated case every throw point is enumerated; operations and states are sampled. ' + NOTE, 'fault enumeration over generated histories'),
    P('C10', 'Every object and allocation is created, used and released exactly once',
      'Over any history, also with exceptions, each element is constructed in raw memory and destroyed exactly once, only live objects are read, assigned or destroyed, and every allocated block is deallocated exactly once with its own size by an equal allocator and never written after. When all containers are gone nothing remains.',
      ['histories', 'fault_sequences', 'inputs'], 'All histories with instrumented elements and allocators, with and without injected failures.',
      'The tests run without instrumented lifetimes for most containers and only on fixed histories.', ALLF,
      [('construct/destroy and allocate/deallocate pairing', PRIV), ('reset and clean-up paths', I + 'segmented_devector.hpp')], NOTE, 'model-based property testing with instrumented elements and allocators'),
    P('C11', 'Allocators are used and propagated as the allocator requirements say',
      'All memory and all elements go through the container\'s allocator, get_allocator reports the right one, and copy/move construction, copy/move assignment and swap propagate, select or keep allocators as allocator_traits prescribes. Unequal non-propagating allocators lead to element-wise transfer, never to adopted memory. Elements that take an allocator themselves get that allocator when it is a polymorphic_allocator.',
      ['histories', 'configurations'], 'All combinations of propagation traits, is_always_equal, equal and unequal instances, and fancy pointers, over all histories.',
      'The tests use one or two allocator configurations per container.', [f for f in ALLF if 'static' not in f],
      [('assignment and swap dispatch on propagation traits', I + 'vector.hpp'), ('same for small containers with internal storage', I + 'small_vector.hpp')], NOTE),
    P('C12', 'Capacity laws and storage location',
      'Capacity never falls below size nor changes except through growth, reserve, shrink_to_fit, assignment, move or swap; reserved capacity makes the promised number of insertions allocation-free, shrink_to_fit gives the documented capacity, and clear and erase keep it. Small containers hold up to N elements without allocating and return to internal storage when shrunk or moved from, and static containers never allocate.',
      ['histories', 'inputs', 'configurations'], 'All histories and internal capacities.',
      TESTS + '; a later operation can silently give up capacity that an earlier one established.', ALLF,
      [('capacity computation', PRIV), ('reserve, reserve_front/back, shrink_to_fit', I + 'devector.hpp'), ('internal storage', I + 'small_vector.hpp')], NOTE),
    P('C13', 'References and iterators stay valid wherever documented',
      'Addresses of elements of a sequence container change only when the documentation allows: elements before an insertion or erasure without reallocation stay in place, segmented containers never move elements when growing at an end, and move construction, move assignment with adoptable memory and swap of heap storage carry elements over in place.',
      ['histories', 'inputs'], 'All histories; addresses of all elements are tracked across each operation.',
      'The tests check values, hardly ever addresses.', SEQF + [PRIV],
      [('push at both ends without relocation', I + 'segmented_devector.hpp'), ('pointer adoption on move and swap', I + 'vector.hpp')], NOTE),
    P('C14', 'Arguments may refer to elements of the container itself',
      'An operation whose value argument is, or is constructed from, an element of the same container gives the same result as with an independent copy of it, whether or not the operation reallocates, shifts or erases that element.',
      ['histories', 'inputs'], 'All operations taking a value or key, all own elements as argument, all positions and spare capacities.',
      'The tests alias few arguments, and an aliasing error shows only for elements on one side of the position or exactly at full capacity.', ALLF,
      [('temporary made before elements are shifted', I + 'vector.hpp'), ('erase by key', I + 'small_unordered_flat_multiset.hpp')], NOTE),
    P('C15', 'Comparison operators agree with element-wise and permutation semantics',
      'For any two containers of one type, ==, !=, <, >, <=, >= of sequences and ordered containers agree with element-wise equality and lexicographical order of their elements, and == of unordered containers holds exactly when one is a permutation of the other. The operators are consistent with each other and independent of capacity, allocator and history, and use the operators of the elements, also of built-in types (0.0 equals -0.0, a NaN equals nothing, signed characters compare as signed).',
      ['inputs', 'histories'], 'All pairs of contents, including permutations, prefixes and single-element differences.',
      'The tests compare a few fixed pairs.', ALLF, [('operators in terms of std::equal, lexicographical_compare and is_permutation', I + 'small_flat_multiset.hpp')], NOTE),
    P('C16', 'Iterators form a random-access range over exactly the elements',
      'Iterators of every container obey the random-access laws (difference, advance, compare, subscript, conversion to const, reverse) for all pairs of positions, visit exactly the elements in order, and work with standard algorithms, also across segment boundaries.',
      ['inputs', 'histories', 'configurations'], 'All pairs of positions in all reached container states.',
      'The tests walk begin to end and a few offsets.', ALLF, [('normal_iterator and segmented_iterator arithmetic', PRIV)], NOTE),
    P('C17', 'Heterogeneous operations equal those with an equivalent key',
      'With a transparent comparator or key_equal, find, count, contains, bounds, equal_range, erase, insert and the map operations given another comparable type give the result the ordering or equivalence defines, including types equivalent to several keys, without constructing a key for lookups and without changing anything when nothing is found.',
      ['inputs', 'histories'], 'All histories and probe values, including probes equivalent to ranges of keys.',
      'The tests probe with one type equivalent to at most one key.', ASSOCF, [('overloads for transparent comparators', I + 'small_flat_set.hpp')], NOTE),
    P('C18', 'A hint never changes the outcome of an insertion',
      'For every valid hint iterator, right or wrong, a hinted insertion leaves the same set of elements, sorted and unique where required, as the unhinted one and returns an iterator to the inserted or the already present element.',
      ['inputs', 'histories'], 'All hint positions for all keys in all reached states.',
      'The tests use a few good hints; wrong hints next to equivalent keys select different branches.', ASSOCF, [('hint position tests', I + 'small_flat_multiset.hpp')], NOTE),
    P('C19', 'Copies are equal and independent, moves and swaps transfer, sources stay usable',
      'A copy equals its source and later changes to either do not affect the other; move construction, move assignment and swap transfer exactly the contents, comparators included; moved-from containers are valid and fully usable (their comparator or key_equal included), and self-assignment and self-swap change nothing.',
      ['histories', 'configurations'], 'All histories over several containers, all allocator configurations, both storage locations.',
      TESTS + '; internal and external storage on either side give four cases for each operation, and damage often shows only in later operations.', ALLF,
      [('assign_copy, assign_move, swap', I + 'small_vector.hpp')], NOTE),
    P('C20', 'Bounds and length limits are reported exactly',
      'at() throws std::out_of_range exactly when the position or key is not present and otherwise yields that element; growing operations throw std::length_error exactly when the requested size exceeds max_size(), before any effect, for every allocator-imposed limit; max_size() is the smaller of that limit and what difference_type can count, but at least N for small containers. Segmented containers may fill up the segments they have. No operation asks the allocator for more than its max_size().',
      ['inputs', 'histories', 'configurations'], 'All positions and keys, all sizes around max_size().',
      'max_size() of the default allocator is far beyond what tests can request one by one.', ALLF, [('check_size and calculate_new_capacity', I + 'vector.hpp')], NOTE),
    P('C21', 'Range operations give one result for every iterator category',
      'Constructing, assigning and inserting from a range gives the same contents for input, forward, bidirectional and random-access iterators, initializer lists and other value types, reading each element of a single-pass range exactly once and never beyond its end.',
      ['inputs', 'histories', 'configurations'], 'All iterator categories, lengths, positions and states.',
      'The tests mostly use initializer lists and pointers.', ALLF, [('dispatch on iterator category', I + 'vector.hpp')], NOTE),
    P('C22', 'Operations stay within their documented complexity',
      'Every operation costs no more than its documented complexity. Appending at an end is constant on average over any mix of pushes and pops, inserting is linear in the count plus the distance to the (nearer) end unless the container must grow, resizing is linear in the difference, accessors, swaps and moves of heap storage are constant, unequal sizes compare in constant time. Lookup in ordered flat containers needs logarithmically many comparisons, in unordered ones linearly many, and none constructs elements or allocates.',
      ['histories', 'inputs', 'configurations'], 'All operations on containers of any size in any state of spare capacity.',
      'The tests use a dozen elements and check results; a linear instead of a constant or logarithmic operation passes all of them.', ALLF,
      [('growth policy', I + 'vector.hpp'), ('shift or grow decisions at both ends', I + 'devector.hpp'), ('segment table growth', I + 'segmented_devector.hpp'), ('binary search', PRIV)],
      'Sampled sizes up to 3000 elements; the cost is counted (element operations, comparisons, allocations, executed control-flow edges), not timed, and compared with a constant several times what the library needs. Trusts those counters and the compiler.',
      'property-based testing with operation counters'),
    P('C23', 'Comparator and key_equal state travels with the container',
      'key_comp, value_comp and key_eq return the function object given at construction; copies, moves, assignments and swaps carry it along, the source of a copy or move keeps one that can still be used, and the contents are ordered or distinguished by it afterwards.',
      ['histories', 'configurations'], 'All histories over containers with different comparator states.',
      'The tests use stateless comparators.', ASSOCF, [('assignment of ref_to_comp / ref_to_equal', I + 'small_flat_set.hpp')], NOTE),
    P('C24', 'Behaviour is the same in every supported configuration',
      'A history of operations gives the same results, contents, capacities, allocations and object lifetimes whatever the language standard (C++11 to C++23), the compiler, the optimisation level, and whether NDEBUG or SFL_NO_EXCEPTIONS is defined. With SFL_NO_EXCEPTIONS an operation that would throw length_error or out_of_range aborts instead; assertions never fire in histories that meet the preconditions and never change what an operation does.',
      ['configurations', 'histories'], 'All histories of all containers, in every combination of compiler, standard, optimisation, NDEBUG and SFL_NO_EXCEPTIONS.',
      'The build compiles the tests with exceptions and assertions on and compares nothing between configurations.', ALLF,
      [('SFL_ASSERT, SFL_TRY/SFL_CATCH, language-version macros', PRIV), ('assertions and clean-up code in every operation', I + 'vector.hpp')],
      'Sampled histories in 6 (thorough: 14) configurations of the two installed compilers with libstdc++; the reference is clang++ -std=c++17 -O0.', 'differential property-based testing across build configurations'),
    P('C25', 'Violated preconditions are caught by an assertion before any harm',
      'In a build with assertions, a call that violates a documented precondition (position or range outside of the container or in the wrong order, access to or removal from an empty container, an index or count out of range, insertion into a full static container, exchange between unequal non-propagating allocators) stops with an assertion failure before it touches memory outside of the container.',
      ['inputs', 'histories', 'configurations'], 'All calls that violate one documented precondition, in all container states.',
      'The tests only make valid calls; a missing, too weak or misplaced assertion passes all of them.', ALLF,
      [('SFL_ASSERT at the head of each operation', I + 'vector.hpp'), ('assertion macro', PRIV)],
      'Sampled states and violating arguments for nearly every operation that asserts. Pointers from other containers are not covered. Trusts the interposed assertion handler.', 'property-based testing of precondition violations'),
    P('C26', 'Rejected insertions leave their arguments and the container alone',
      'When the key is already present, insert of an rvalue and try_emplace do not move from their arguments, insert_or_assign assigns only the mapped value, operator[] creates nothing, and keys and mapped values already in the container keep their identity and value.',
      ['inputs', 'histories'], 'All present and absent keys in all reached states.',
      'The tests insert duplicates of plain integers, where a wrongly moved argument is invisible.', [f for f in UNI],
      [('search before constructing', I + 'small_flat_map.hpp')], NOTE),
    P('C27', 'No operation touches foreign memory or has undefined behaviour',
      'Within the preconditions, no operation reads or writes outside of the container, its allocated blocks and its arguments, uses uninitialised or freed memory, or executes undefined behaviour (null or out-of-range pointer arithmetic, overflow, misaligned access), also while an exception propagates.',
      ['histories', 'inputs', 'fault_sequences'], 'All histories, with sizes up to thousands of elements, with and without injected failures.',
      'The tests run without sanitizers on a dozen elements; a stray read has no visible effect until it meets an unmapped page.', ALLF,
      [('iterator arithmetic next to the ends of the segment table', I + 'segmented_devector.hpp'), ('overlapping and uninitialized algorithms', PRIV)],
      'Sampled histories under AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer, and what those detect.', 'property-based testing under sanitizers'),
    P('C28', 'Read-only operations never write to the container',
      'Accessors, lookups, iteration, comparison operators and copying from a container write neither to the container object nor to its storage, not even the value that is already there, nor to static variables, so that concurrent readers need no synchronisation. This includes the non-const overloads of accessors and lookups.',
      ['histories', 'inputs', 'schedules'], 'All read-only operations in all states reached by any history.',
      'The tests cannot see a write that restores or repeats a value, nor a cache in a mutable member or a static variable.', ALLF,
      [('const member functions and lookups', I + 'small_flat_set.hpp'), ('iterators', PRIV)],
      'Sampled histories; the container and its blocks are write-protected pages during every read-only operation, so any write is seen without a second thread; static variables are compared before and after (one change each, the initialization, is allowed).', 'property-based testing with write-protected memory'),
    P('C29', 'Results do not depend on incidental features of user types',
      'A history gives the same results whether the element, comparator and allocator types are ordinary or unusual but conforming: elements that are over-aligned, final, overload the address or comma operators, comparisons that return a class convertible to bool, elements that are only explicitly constructible, allocators without default constructor, with a narrower size_type, or (if they do not propagate) without assignment and swap. It behaves as the model says with built-in and standard library types as elements, keys, mapped values and comparators (pointers to members, functions and objects, floating point, smart pointers, any, optional, variant, aggregates, lambdas, std::function).',
      ['configurations', 'histories'], 'All histories of all containers with such types.',
      'The tests use int, one movable class and std::allocator-like types.', ALLF,
      [('internal storage and construct/destroy helpers', PRIV), ('growth computation in terms of size_type', I + 'small_vector.hpp')],
      'Sampled histories for three sets of unusual types; the reference is the same history with ordinary types, and for built-in and standard library types a std::vector (std::multimap) of them.', 'differential property-based testing across user types'),
    P('C30', 'Standard algorithms work on containers as they do on std::vector',
      'Every standard algorithm, in its iterator and its ranges form, applied to any positions of any container through iterators, const iterators, reverse iterators, insert iterators, views or (contiguous containers) spans returns the same positions and values and leaves the same elements as on a std::vector with the same elements. The iterators model the standard iterator concepts (random access, sized sentinel, conversion to const) and const iterators do not allow writing.',
      ['inputs', 'histories'], 'All algorithms, all positions, all contents, across segment boundaries and after any history.',
      'The tests use hardly any algorithm and no ranges; algorithms combine iterator operations in ways no fixed walk does.', ALLF,
      [('normal_iterator and segmented_iterator', PRIV), ('begin, end and their reverse forms', I + 'segmented_devector.hpp')],
      'Sampled histories, built as C++20 with AddressSanitizer and UndefinedBehaviorSanitizer; trusts libstdc++ and its std::vector.', 'differential property-based testing against std::vector', observe=['results of standard algorithms and the elements they leave']),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in ALL:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks = []
    for p in ALL:
        assert p['id'] in PR.PROPS, p['id']
        assert len(p['title']) <= 80, p['title']
        checks.append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick python3 run.py check ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 run.py check ' + p['id'],
                           technique=p['_tech'], level=PR.PROPS[p['id']]['level'], level_note=p['_note']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=[],
                       notes='No hooks: the checks use the public interface only. See DESIGN.md.'), f, indent=1)
        f.write('\n')


main()
