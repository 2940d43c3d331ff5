"""What each check builds and runs. A variant is a driver with compiler options; a check runs
some variants with a case budget."""

VARIANTS = {}


def variant(name, src, **kw):
    VARIANTS[name] = dict(name=name, src=src, **kw)
    return name


CHECKS = {}


def check(prop, variants, cases, thorough_cases, rule, technique, note, level='exploration', **kw):
    CHECKS[prop] = dict(variants=variants, cases=cases, thorough_cases=thorough_cases, rule=rule,
                        technique=technique, note=note, level=level, **kw)


ASAN = 'AddressSanitizer + UBSan'

def huge(part, cases=(1, 1), flags=(), name='', **kw):
    return variant('huge%d%s' % (part, name), 'huge.cpp', flags=['-DPART=%d' % part] + list(flags), cases=cases, once=True, **kw)


FAST = dict(san='none', opt='2')

# Containers of every kind of element
def kinds(of, cases, thorough_cases):
    return [variant('kinds%d_%d' % (of, k), 'kinds.cpp', flags=['-DOF=%d' % of, '-DSET=%d' % k], opt='0', cases=(cases, thorough_cases)) for k in range(6)]


# --- Array ---------------------------------------------------------------------------------
array = [variant('array%d' % k, 'array.cpp', flags=['-DSET=%d' % k]) for k in range(8)]
array_faults = [variant('array_faults%d' % k, 'array.cpp', flags=['-DSET=%d' % k, '-DFAULTS']) for k in range(1, 8)]
array_rule = ('an evaluation is one public operation executed and judged, in random histories of 10-60 operations '
              'on three Arrays of one element type (nine types, three allocators); distinct counts different (operation, size, capacity, position, '
              'source kind and length) combinations actually executed')
check('C01', array + kinds(1, 250, 2500) + [huge(1, (1, 20)), huge(2, **FAST)], 2500, 6000, array_rule,
      'runtime monitoring: model-based history oracle under ' + ASAN,
      'Held on the histories run; the model is std::vector<int>, and std::vector of the same elements for about 45 kinds of elements filled from 16 kinds of sources. Trusts the harness element types, gcc sanitizers.')
check('C02', array + kinds(2, 200, 2500), 2500, 6000, array_rule,
      'runtime monitoring: element-lifetime and allocation monitor under ' + ASAN,
      'Every constructor, destructor, assignment, allocation and deallocation is checked against a registry of live objects and blocks; with about 45 kinds of elements by an allocator that notes what is constructed and destroyed through it.')
check('C03', array_faults, 3500, 8000,
      array_rule + '; in each operation an allocation or an element operation may be made to fail',
      'runtime monitoring with fault injection, lifetime and guarantee oracles under ' + ASAN,
      'Failures injected at a random allocation or element operation of each step.')
check('C04', array + [huge(4, (2, 60), **FAST)], 2500, 6000, array_rule + '; plus counted runs of up to 4000 pushes and some of 1 to 2 million',
      'runtime monitoring: storage, address and cost monitor under ' + ASAN,
      'Object identity, addresses, allocation and move counts observed around every operation.')

# --- Heap ----------------------------------------------------------------------------------
heap = [variant('heap%d' % k, 'heap.cpp', flags=['-DSET=%d' % k]) for k in range(4)]
check('C05', heap[:3] + kinds(5, 400, 4000) + [huge(5, (2, 40))], 2500, 8000,
      'an evaluation is one push, pop, construction or failed push of a random history, after which the whole content and front() are '
      'judged; distinct counts different (size, front element, operation, input pattern)',
      'runtime monitoring: multiset-conservation and priority oracle under ' + ASAN,
      'Held on the histories run, over four strict weak orders (three with ties), five input patterns, Array and vector storage.')
check('C06', heap[3:] + [variant('heap4', 'heap.cpp', flags=['-DSET=4'], **FAST)], 360, 1500,
      'an evaluation is one push or pop on a heap of up to 4000 elements (in some runs up to 400000), whose comparator calls and element moves are counted; '
      'distinct counts different (size, calls, moves)',
      'runtime monitoring: operation-cost monitor',
      'Bound judged: 4 (log2(N+1)+1) comparator calls and three times that many element moves, per operation; moves are not judged when the container reallocates.')

# --- LinkedList ----------------------------------------------------------------------------
lists = [variant('list%d' % k, 'list.cpp', flags=['-DSET=%d' % k]) for k in range(4)]
list_faults = [variant('list_faults%d' % k, 'list.cpp', flags=['-DSET=%d' % k, '-DFAULTS']) for k in range(4)]
list_rule = ('an evaluation is one public operation executed and judged, in random histories of 10-60 operations on three lists '
             '(five element types); distinct counts different (operation, size, position, source kind and length)')
check('C07', lists + kinds(7, 250, 2500) + [huge(7, (1, 8)), huge(7, (3, 40), name='_release', **FAST)], 6000, 15000, list_rule,
      'runtime monitoring: model-based history oracle with element addresses, under ' + ASAN,
      'Held on the histories run; after each operation content, addresses and stored iterators of every element are compared with the model.')
check('C08', list_faults, 7000, 15000, list_rule + '; allocations and element operations are made to fail at random',
      'runtime monitoring with fault injection: node and element lifetime oracle under ' + ASAN,
      'Failures injected at a random allocation or element operation of each step.')

# --- SPSCQueue -----------------------------------------------------------------------------
spsc_seq = variant('spsc_sequential', 'spsc.cpp')
spsc_asan = variant('spsc_concurrent_asan', 'spsc.cpp', flags=['-DCONCURRENT'])
spsc_plain = variant('spsc_concurrent', 'spsc.cpp', san='none', opt='2', flags=['-DCONCURRENT'])
spsc_tsan = variant('spsc_tsan', 'spsc.cpp', san='tsan', flags=['-DCONCURRENT'])
spsc_tsan_nd = variant('spsc_tsan_noassert', 'spsc.cpp', san='tsan', flags=['-DCONCURRENT', '-DNDEBUG'])
spsc_tsan_clang = variant('spsc_tsan_clang', 'spsc.cpp', san='tsan', cxx='clang++', flags=['-DCONCURRENT'])
spsc_rule = ('an evaluation is one push attempt or take by one of two threads; delays are injected in element constructors (before '
             'publication), destructors (before the slot is freed) and consumer callbacks; distinct counts different (side, ring position, '
             'occupancy seen, capacity) situations, i.e. relative positions of the two threads')
check('C09', [spsc_plain, spsc_asan, spsc_seq], 270, 1500, spsc_rule + '; plus random sequential histories, some with elements that can be neither copied nor moved',
      'runtime monitoring: exactly-once FIFO checker over stressed two-thread executions',
      'Held on the interleavings run on this machine; elements carry unique sequence numbers, checked at the consumer boundary.',
      shards=2, parallel=3, thorough_shards=6, assumptions=['one producer and one consumer thread'])
check('C10', [spsc_tsan, spsc_tsan_nd], 270, 1500, spsc_rule,
      'runtime monitoring: ThreadSanitizer over stressed two-thread executions',
      'Happens-before race detection on the executions run, in builds with and without assertions; the harness shares only relaxed atomics with the threads.',
      shards=2, parallel=3, thorough_shards=6, assumptions=['one producer and one consumer thread'])
check('C11', [spsc_seq, spsc_plain, huge(11, (3, 60))], 270, 1500,
      spsc_rule + '; plus every ring position and fill level of capacities 1 to 64, and random sequential histories',
      'runtime monitoring: capacity-accounting monitor, exhaustive over ring positions sequentially, stressed concurrently',
      'Exhaustive for the sequential accounting of the listed capacities; held on the interleavings run for the concurrent promises.',
      shards=2, parallel=3, thorough_shards=6)
check('C12', [spsc_seq, spsc_asan] + kinds(12, 150, 2500), 360, 2500,
      'an evaluation is one push or take of a random sequential history with tracked elements, injected constructor failures and throwing '
      'callbacks, or of a two-thread run that counts constructions and destructions; distinct counts different (fill, capacity, ring position)',
      'runtime monitoring with fault injection: element lifetime oracle under ' + ASAN,
      'Every construction and destruction is checked against a registry of live elements; failures injected in constructors and callbacks.',
      shards=2, parallel=4, thorough_shards=6)

wait_free = [variant('wait_free', 'waitfree.cpp', san='none', opt='2'), variant('wait_free_noassert', 'waitfree.cpp', san='none', opt='2', flags=['-DNDEBUG']),
             variant('wait_free_debug', 'waitfree.cpp', san='none', opt='0')]
check('C44', wait_free, 90, 1500,
      'an evaluation is one call on a queue whose other side is stopped, by a signal at an arbitrary instruction or inside of an element '
      'operation or callback; distinct counts different (instruction the other side was stopped at, or fill level and capacity)',
      'runtime monitoring with injected thread stops: watchdog over calls of the running side, count of kernel waits',
      'Held on the stops run; a call that does not end within 10 s while the other side is stopped is a violation. Calls take nanoseconds.',
      shards=1, parallel=2, thorough_shards=4, assumptions=['one producer and one consumer thread', 'element operations end'])

# --- ArrayView -----------------------------------------------------------------------------
views_rule = ('an evaluation is one observation of a view (construction, element access, iteration, subview, conversion, boundary request), '
              'compared with the viewed storage; distinct counts different (element type, extent, source, size, window) combinations')
check('C13', [variant('views', 'views.cpp'), huge(13, **FAST)], 600, 2000, views_rule,
      'runtime monitoring: address-and-content oracle and death tests of the bounds assertions, under ' + ASAN,
      'Held on the windows and sources run; out-of-bounds requests must be stopped by an assertion of the library, observed in a child process.')
check('C14', [variant('views_bytes', 'views.cpp', flags=['-DBYTES']), 'huge13'], 12000, 100000, views_rule,
      'runtime monitoring: byte-image oracle under ' + ASAN,
      'The byte views are compared with the object representation of the viewed elements, and writes through them observed in the elements.')

# --- Iterators -----------------------------------------------------------------------------
iter_rule = ('an evaluation is one access or comparison of an iterator, compared with the index it should be at, in random walks of 40 '
             'movements; distinct counts different (sequence, length, movement, from, to)')
check('C25', [variant('const_iterator%d' % k, 'iterators.cpp', flags=['-DPART=%d' % k]) for k in range(3)] + [huge(25, (20, 2000), **FAST)], 600, 2500, iter_rule,
      'runtime monitoring: index-model oracle over random walks, under ' + ASAN,
      'Held on the walks run, over sequences of every iterator category with references, values and proxies; read-only access is a static check of the harness.')
check('C26', [variant('reverse_iterator%d' % k, 'iterators.cpp', flags=['-DREVERSE', '-DPART=%d' % k]) for k in range(3)] + ['huge25'], 800, 3500, iter_rule,
      'runtime monitoring: index-model oracle over random walks, under ' + ASAN,
      'Held on the walks run, over bidirectional and random access sequences, and between mutable and constant iterators.')

# C++23 with deduced object parameters, which clang 18 has but doesn't announce
THIS = dict(cxx='clang++', opt='0')
THIS_FLAGS = ['-std=c++2b', '-D__cpp_explicit_this_parameter=202110L']


def this(name, src, flags):
    return variant(name, src, flags=flags + THIS_FLAGS, **THIS)


# --- Pair and Tuple ------------------------------------------------------------------------
tuple_rule = ('an evaluation is one judged access, assignment, conversion, swap, comparison or function call; distinct counts different '
              '(type combination, operation, values or order class)')
pair_this = [this('pair_this%d' % k, 'tuples.cpp', ['-DPART=15', '-DHALF=%d' % k]) for k in range(3)]
check('C15', [variant('pair%d' % k, 'tuples.cpp', opt='0', flags=['-DPART=15', '-DHALF=%d' % k]) for k in range(3)] + pair_this[:1], 1200, 12000, tuple_rule,
      'runtime monitoring: element identity, copy/move accounting and lexicographic-order oracle under ' + ASAN,
      'Held on 17 combinations of element types (owning, move only, empty, references, partially and weakly ordered) and random values.',
      thorough_variants=pair_this[1:])
tuple_this = [this('tuple_this%d' % k, 'tuples.cpp', ['-DPART=16', '-DHALF=%d' % k]) for k in range(3)]
check('C16', [variant('tuple%d' % k, 'tuples.cpp', opt='0', flags=['-DPART=16', '-DHALF=%d' % k]) for k in range(4)] + tuple_this[:1], 900, 9000, tuple_rule,
      'runtime monitoring: element identity, copy/move accounting and lexicographic-order oracle under ' + ASAN,
      'Held on 21 combinations of element types of arity 0 to 8, 13 and 21 and random values.',
      thorough_variants=tuple_this[1:])
tuple_functions_this = [this('tuple_functions_this%d' % k, 'tuples.cpp', ['-DPART=17', '-DHALF=%d' % k]) for k in range(4)]
check('C17', [variant('tuple_functions%d' % k, 'tuples.cpp', opt='0', flags=['-DPART=17', '-DHALF=%d' % k]) for k in range(4)] + tuple_functions_this[:1], 450, 4000,
      tuple_rule + '; tuple_cat is run on about 140 combinations of up to five (and some of nine) tuple-likes of ten kinds and three value categories',
      'runtime monitoring: call recorder, element identity and copy/move accounting under ' + ASAN,
      'Held on the combinations run.',
      thorough_variants=tuple_functions_this[1:])

# --- Callables -----------------------------------------------------------------------------
bind_this = [this('bind_this%d' % k, 'bind.cpp', ['-DSIDE=%d' % k]) for k in range(3)]
check('C18', [variant('bind%d' % k, 'bind.cpp', opt='0', flags=['-DSIDE=%d' % k]) for k in range(3)] + bind_this[2:], 450, 5000,
      'an evaluation is one call of a bound callable, whose arguments, their addresses, constness and value category are recorded; distinct '
      'counts different (bound and call argument types, form of the call, category of the arguments)',
      'runtime monitoring: call recorder with argument identity, copy accounting and fault injection, under ' + ASAN,
      'Held on the argument lists run; bound and call arguments are counted objects, so extra copies are seen too.',
      thorough_variants=bind_this[:2])
delegate_rule = ('an evaluation is one operation on one of four delegates, followed by a comparison of what each holds with the model, or one call '
                 'recorded by its target; distinct counts different (operation, argument category, targets held before, outcome)')
check('C19', [variant('delegate', 'delegate.cpp')], 12000, 150000, delegate_rule,
      'runtime monitoring: model of what each delegate holds, call recorder, under ' + ASAN,
      'Held on the histories run, over fourteen kinds of target (functions, small, large, over-aligned, trivially copyable or not).')
check('C20', [variant('delegate_faults', 'delegate.cpp', flags=['-DFAULTS'])], 12000, 150000, delegate_rule,
      'runtime monitoring with fault injection: lifetime registry and allocation accounting under ' + ASAN,
      'Every construction and destruction of a target is checked against a registry of live objects, with failures injected in copies and moves.')
check('C21', [variant('scoped', 'scoped.cpp')], 60000, 600000,
      'an evaluation is one call of a function given to a ScopedDelegate, checked against the stack of delegates alive; programs are random '
      'nestings of scopes; distinct counts different (kind of function, way of leaving the scope, depth, inner scopes)',
      'runtime monitoring: online stack checker over random programs, under ' + ASAN,
      'Held on the programs run: six ways of leaving a scope, nesting up to depth 5, automatic, heap, member and optional delegates, fourteen kinds of function.')

# --- Algorithms ----------------------------------------------------------------------------
LEVELS = {
    'none': ([], []),
    'sse': (['-msse', '-DXME_SIMD_ENABLE_SSE'], []),
    'sse2': (['-msse2', '-DXME_SIMD_ENABLE_SSE2'], ['sse2']),
    'sse3': (['-msse3', '-DXME_SIMD_ENABLE_SSE3'], ['pni']),
    'ssse3': (['-mssse3', '-DXME_SIMD_ENABLE_SSSE3'], ['ssse3']),
    'sse41': (['-msse4.1', '-DXME_SIMD_ENABLE_SSE41'], ['sse4_1']),
    'sse42': (['-msse4.2', '-DXME_SIMD_ENABLE_SSE42'], ['sse4_2']),
    'avx': (['-mavx', '-DXME_SIMD_ENABLE_AVX'], ['avx']),
    'avx2': (['-mavx2', '-DXME_SIMD_ENABLE_AVX2'], ['avx2']),
    'avx512': (['-mavx512f', '-DXME_SIMD_ENABLE_AVX512F'], ['avx2', 'avx512f']),
    'unused': (['-mavx2'], ['avx2']),  # available, not enabled
}


def levels(prefix, src, flags, names, **kw):
    return [variant('%s_%s' % (prefix, n), src, flags=flags + LEVELS[n][0], cpu=LEVELS[n][1], **kw) for n in names]


find_quick = (levels('find0', 'find.cpp', ['-DPART=0'], ['avx2', 'sse41', 'sse2', 'none', 'avx512'])
              + levels('find1', 'find.cpp', ['-DPART=1'], ['avx2', 'sse41', 'sse2'])
              + levels('find_ranges', 'find.cpp', ['-DRANGES'], ['avx2'])
              + levels('find0_release', 'find.cpp', ['-DPART=0'], ['avx2', 'sse2'], san='none', opt='3')
              + levels('find1_release', 'find.cpp', ['-DPART=1'], ['avx2'], san='none', opt='2')
              + levels('find_huge', 'huge.cpp', ['-DPART=22'], ['avx2', 'sse41'], cases=(1, 1), once=True, **FAST))
find_more = (levels('find0', 'find.cpp', ['-DPART=0'], ['sse', 'sse3', 'ssse3', 'sse42', 'avx', 'unused'])
             + levels('find1', 'find.cpp', ['-DPART=1'], ['none', 'avx512', 'ssse3', 'avx', 'unused'])
             + levels('find_ranges', 'find.cpp', ['-DRANGES'], ['none', 'sse2', 'sse41', 'avx512'])
             + levels('find1_release', 'find.cpp', ['-DPART=1'], ['sse2', 'sse41', 'avx512'], san='none', opt='3')
             + levels('find_huge', 'huge.cpp', ['-DPART=22'], ['none', 'sse2'], cases=(1, 1), once=True, **FAST)
             + levels('find0_clang', 'find.cpp', ['-DPART=0'], ['avx2', 'sse2', 'none'], cxx='clang++', san='none', opt='3'))
check('C22', find_quick, 600, 20000,
      'an evaluation is one search, compared with an index loop; ranges end or begin at an inaccessible page or lie in exactly sized blocks; '
      'distinct counts different (element type, length, position of the match, alignment, execution policy)',
      'runtime monitoring: reference-search oracle with guard pages, under ' + ASAN + ', for every SIMD level',
      'Exhaustive over lengths up to three registers and positions of one match, for each type and SIMD level; random otherwise. '
      'Levels the processor does not have are skipped and listed.', thorough_variants=find_more)

reverse_quick = (levels('reverse', 'reverse.cpp', ['-DMORE'], ['avx2', 'ssse3', 'sse2', 'none', 'avx512'])
                 + levels('reverse_ranges', 'reverse.cpp', ['-DRANGES'], ['avx2'])
                 + levels('reverse_release', 'reverse.cpp', ['-DMORE'], ['avx2', 'ssse3'], san='none', opt='3')
                 + levels('reverse_huge', 'huge.cpp', ['-DPART=23'], ['avx2'], cases=(1, 1), once=True, **FAST))
reverse_more = (levels('reverse', 'reverse.cpp', ['-DMORE'], ['sse', 'sse3', 'sse41', 'sse42', 'avx', 'unused'])
                + levels('reverse_ranges', 'reverse.cpp', ['-DRANGES'], ['ssse3', 'none', 'avx512'])
                + levels('reverse_release', 'reverse.cpp', ['-DMORE'], ['avx512', 'none'], san='none', opt='3')
                + levels('reverse_huge', 'huge.cpp', ['-DPART=23'], ['ssse3', 'none'], cases=(1, 1), once=True, **FAST)
                + levels('reverse_clang', 'reverse.cpp', ['-DMORE'], ['avx2', 'ssse3'], cxx='clang++', san='none', opt='3'))
check('C23', reverse_quick, 600, 20000,
      'an evaluation is one reversed range, compared with a copy taken before; ranges end or begin at an inaccessible page or lie in exactly '
      'sized blocks, and the memory around them is compared too; distinct counts different (element type, length, alignment, form of the call)',
      'runtime monitoring: before-and-after oracle with guard pages and guard bytes, under ' + ASAN + ', for every SIMD level',
      'Exhaustive over lengths up to 140 at 33 alignments, for each type and SIMD level; random otherwise. '
      'Levels the processor does not have are skipped and listed.', thorough_variants=reverse_more)

# --- SIMD detection ------------------------------------------------------------------------
# supported levels of a target, as bits in the order of simd.cpp
SIMD_TARGETS = {
    'x86_64': (['-march=x86-64'], 0b111, []),
    'x86_64_nommx': (['-march=x86-64', '-mno-mmx'], 0b110, []),
    'sse3': (['-march=x86-64', '-msse3'], 0b1111, ['pni']),
    'ssse3': (['-march=x86-64', '-mssse3'], 0b11111, ['ssse3']),
    'sse41': (['-march=x86-64', '-msse4.1'], 0b111111, ['sse4_1']),
    'sse42': (['-march=x86-64-v2'], 0b1111111, ['sse4_2', 'popcnt', 'ssse3', 'cx16']),
    'nopopcnt': (['-march=x86-64', '-msse4.2', '-mno-popcnt'], 0b1111111, ['sse4_2']),
    'popcnt': (['-march=x86-64', '-mpopcnt', '-mbmi', '-mlzcnt'], 0b111, ['popcnt', 'bmi1', 'abm']),
    'avx': (['-march=x86-64-v2', '-mavx'], 0b11111111, ['avx']),
    'avx2': (['-march=x86-64-v2', '-mavx2'], 0b111111111, ['avx2']),
    'avx512': (['-march=x86-64-v2', '-mavx512f'], 0b1111111111, ['avx512f']),
}
SIMD_ENABLES = ['MMX', 'SSE', 'SSE2', 'SSE3', 'SSSE3', 'SSE41', 'SSE42', 'AVX', 'AVX2', 'AVX512F']


def simd(target, enables, **kw):
    flags, supported, cpu = SIMD_TARGETS[target]
    highest = max([SIMD_ENABLES.index(e) for e in enables], default=-1)
    return variant('simd_%s_%s' % (target, '_'.join(enables).lower() or 'none') + kw.pop('suffix', ''), 'simd.cpp', cpu=cpu,
                   flags=flags + ['-DSUPPORTED=%d' % supported, '-DENABLED=%d' % highest] + ['-DXME_SIMD_ENABLE_' + e for e in enables],
                   san='none', opt='0', **kw)


simd_quick = ([simd('x86_64', [])] + [simd('x86_64', [e]) for e in SIMD_ENABLES]
              + [simd(t, []) for t in SIMD_TARGETS if t != 'x86_64'] + [simd('avx2', ['AVX2']), simd('sse41', ['SSE2', 'SSE41']),
              simd('sse42', ['SSSE3', 'MMX', 'SSE42']), simd('avx2', ['SSE', 'AVX512F'])])
simd_more = ([simd(t, [e]) for t in SIMD_TARGETS for e in SIMD_ENABLES if t != 'x86_64' and (t, e) != ('avx2', 'AVX2')]
             + [simd('x86_64', [a, b]) for i, a in enumerate(SIMD_ENABLES) for b in SIMD_ENABLES[i + 1:]]
             + [simd(t, [], cxx='clang++', suffix='_clang') for t in SIMD_TARGETS if t != 'x86_64_nommx'])
check('C24', simd_quick, 800, 4096,
      'an evaluation is one reported set, level macro or set operation compared with what the configuration of the build gives; distinct '
      'counts different (configuration, sets combined)',
      'runtime monitoring: self-report of programs built in each configuration, compared with the configuration and the processor',
      'One program per configuration: every enable option, alone and combined, and eleven target instruction sets. '
      'Targets the processor does not have are skipped and listed.', thorough_variants=simd_more)

# --- Mathematics ---------------------------------------------------------------------------
math_parts = [variant('vectors%d' % k, 'vectors.cpp', flags=['-DPART=%d' % k], opt='0') for k in range(4)]
check('C27', math_parts + [variant('vectors_release', 'vectors.cpp', flags=['-DPART=0'], san='none', opt='2')], 9000, 120000,
      'an evaluation is one vector result, all of whose components are compared with scalar arithmetic; distinct counts different (component '
      'types, size, first and last operand values)',
      'runtime monitoring: component-wise scalar oracle, under ' + ASAN,
      'Held on the values run: fifteen pairs of component types, sizes 1 to 6, special values, operands that alias the vector or its components.',
      thorough_variants=[variant('vectors_release%d' % k, 'vectors.cpp', flags=['-DPART=%d' % k], san='none', opt='3', cxx=c) for k, c in
                         ((1, 'g++'), (2, 'g++'), (3, 'g++'))] + [variant('vectors_clang%d' % k, 'vectors.cpp', flags=['-DPART=%d' % k], san='none', opt='3', cxx='clang++') for k in range(4)])


check('C28', [variant('geometry', 'geometry.cpp', flags=['-DPART=28'], opt='0'),
              variant('geometry_release', 'geometry.cpp', flags=['-DPART=28'], san='none', opt='2')], 50000, 300000,
      'an evaluation is one geometric function of random vectors compared with its value in long double; distinct counts different (dot '
      'product, lengths) by magnitude, type and size',
      'runtime monitoring: long double reference evaluation and geometric identities, under ' + ASAN,
      'Held on the values run, within a few units of rounding of the terms summed up: float, double and long double, sizes 1 to 5, magnitudes 1e-12 to 1e12.',
      thorough_variants=[variant('geometry_clang', 'geometry.cpp', flags=['-DPART=28'], san='none', opt='3', cxx='clang++')])
check('C29', [variant('lerp', 'geometry.cpp', flags=['-DPART=29'], opt='0'),
              variant('lerp_release', 'geometry.cpp', flags=['-DPART=29'], san='none', opt='2')], 6000, 100000,
      'an evaluation is one interpolated component, or one sign; distinct counts different (end points, parameter) by magnitude, type and size',
      'runtime monitoring: long double reference evaluation, exact at the ends, under ' + ASAN,
      'Held on the values run: scalar and per component parameters of bool, integer and floating point types, also outside of [0, 1], NaN and infinities where selection must not touch them.',
      thorough_variants=[variant('lerp_clang', 'geometry.cpp', flags=['-DPART=29'], san='none', opt='3', cxx='clang++')])

mats = [variant('matrix%d' % k, 'matrix.cpp', flags=['-DPART=30', '-DTYPE=%d' % k], opt='0') for k in range(4)]
check('C30', mats + [variant('matrix_release', 'matrix.cpp', flags=['-DPART=30', '-DTYPE=0'], san='none', opt='2')], 2400, 40000,
      'an evaluation is one matrix or product compared element by element with its reference; distinct counts different matrices by the '
      'magnitudes of their elements, shape and types',
      'runtime monitoring: element by element reference evaluation, under ' + ASAN,
      'Held on the values run: shapes 2x2 to 5x5, float, double, long double and three mixed pairs; operands that alias the matrix or its elements. '
      'Element-wise operations are compared exactly, products and mixed types within a few units of rounding.',
      thorough_variants=[variant('matrix_clang%d' % k, 'matrix.cpp', flags=['-DPART=30', '-DTYPE=%d' % k], san='none', opt='3', cxx='clang++') for k in range(4)])
check('C31', [variant('determinant', 'matrix.cpp', flags=['-DPART=31'], opt='0'),
              variant('determinant_release', 'matrix.cpp', flags=['-DPART=31'], san='none', opt='2')], 12000, 200000,
      'an evaluation is one determinant or one matrix compared with its definition; distinct counts different matrices by the magnitudes of '
      'their elements, shape and type',
      'runtime monitoring: Leibniz sum in long double, element by element references, under ' + ASAN,
      'Held on the values run: every 2x2 and 3x3 matrix of signs, random, singular, triangular, permutation and small integer (exact) matrices, shapes 2x2 to 5x5.',
      thorough_variants=[variant('determinant_clang', 'matrix.cpp', flags=['-DPART=31'], san='none', opt='3', cxx='clang++')])

check('C32', [variant('transform', 'transform.cpp', flags=['-DPART=32'], opt='0'),
              variant('transform_release', 'transform.cpp', flags=['-DPART=32'], san='none', opt='2')], 15000, 200000,
      'an evaluation is one transformed matrix or rotation identity compared with its reference; distinct counts different (matrix, vector '
      'or angle and axis) by magnitude and types',
      'runtime monitoring: products with the defining matrices in long double, rotation identities, under ' + ASAN,
      'Held on the values run: eight pairs of matrix and vector types, angles of float, double, long double and int up to 100 radians, within rounding.',
      thorough_variants=[variant('transform_clang', 'transform.cpp', flags=['-DPART=32'], san='none', opt='3', cxx='clang++')])
lh = ['-DXME_MATH_CLIP_LH']
check('C33', [variant('projection', 'transform.cpp', flags=['-DPART=33'], opt='0'),
              variant('projection_lh', 'transform.cpp', flags=['-DPART=33'] + lh, opt='0'),
              variant('projection_release', 'transform.cpp', flags=['-DPART=33'], san='none', opt='2')], 60000, 600000,
      'an evaluation is one projected point of a view volume, a corner or within; distinct counts different view volumes by magnitude, form and type',
      'runtime monitoring: projected points compared with the view volume in long double, under ' + ASAN,
      'Held on the volumes run: centered, off-center and one sided volumes, near planes behind the eye for orthographic ones, both clip spaces.',
      thorough_variants=[variant('projection_clang', 'transform.cpp', flags=['-DPART=33'] + lh, san='none', opt='3', cxx='clang++')])
check('C34', [variant('quaternion', 'scalar.cpp', flags=['-DPART=34'], opt='0'),
              variant('quaternion_release', 'scalar.cpp', flags=['-DPART=34'], san='none', opt='2')], 90000, 2000000,
      'an evaluation is one quaternion result, all of whose components are compared with the multiplication table of the units; distinct '
      'counts different operands by magnitude and type',
      'runtime monitoring: long double reference from the multiplication table, algebraic laws, under ' + ASAN,
      'Held on the values run: float, double, long double and two mixed pairs; all signed products of units exactly.',
      thorough_variants=[variant('quaternion_clang', 'scalar.cpp', flags=['-DPART=34'], san='none', opt='3', cxx='clang++')])
check('C35', [variant('trigonometry', 'scalar.cpp', flags=['-DPART=35'], opt='0'),
              variant('trigonometry_release', 'scalar.cpp', flags=['-DPART=35'], san='none', opt='2')], 160000, 2000000,
      'an evaluation is one constant in one type, or one function of one angle; distinct counts different constants and arguments by magnitude',
      'runtime monitoring: constants compared with values computed in 90 digits from their definitions, functions with long double evaluation, under ' + ASAN,
      'Every constant in float, double and long double; the functions held on the arguments run.',
      thorough_variants=[variant('trigonometry_clang', 'scalar.cpp', flags=['-DPART=35'], san='none', opt='3', cxx='clang++')])

# --- Platform ------------------------------------------------------------------------------
check('C36', [variant('environment', 'environment.cpp'), variant('environment_release', 'environment.cpp', san='none', opt='2')], 1600, 20000,
      'an evaluation is one call whose effect on the whole process environment, or whose result, is compared with a model; distinct counts '
      'different (name, value) pairs',
      'runtime monitoring: model of the process environment, compared before and after each call, under ' + ASAN,
      'Held on the histories run: names that are prefixes of each other, views that are not terminated or followed by other characters, values up to 70000 bytes. Linux only; one thread.',
      thorough_variants=[variant('environment_clang', 'environment.cpp', san='none', opt='2', cxx='clang++')])
wrap = ['-rdynamic', '-Wl,--wrap=dlopen', '-Wl,--wrap=dlclose', '-Wl,--wrap=dlsym']
check('C37', [variant('library', 'library.cpp', flags=wrap), variant('library_release', 'library.cpp', flags=wrap, san='none', opt='2')], 4000, 40000,
      'an evaluation is one operation on SharedLibrary objects after which loads, unloads and held libraries are compared, or one looked up '
      'address; distinct counts different (operation, library held by each of five objects)',
      'runtime monitoring: loader calls recorded by wrapped functions, loads and unloads reported by the loaded libraries, under ' + ASAN,
      'Held on the histories run, with four libraries and three files that do not load, built by the check. Linux only.',
      thorough_variants=[variant('library_clang', 'library.cpp', flags=wrap, san='none', opt='2', cxx='clang++')])
check('C38', [variant('bits', 'memory.cpp', flags=['-DPART=38']), variant('bits_gnu', 'memory.cpp', flags=['-DPART=38', '-std=gnu++20'], san='none', opt='2')], 60000, 100000,
      'an evaluation is one value given to has_single_bit or to_unsigned, or one category given to forward_like; distinct counts types, bits and categories',
      'runtime monitoring: results compared with a bit count, two\'s complement arithmetic, and the types and addresses required, under UBSan',
      'Every value of the 8 and 16 bit types, edges and random values of the wider ones; every 32 bit value of has_single_bit in the thorough run.')
check('C39', [variant('uninitialized', 'memory.cpp', flags=['-DPART=39'], opt='0'),
              variant('uninitialized_release', 'memory.cpp', flags=['-DPART=39'], san='none', opt='2'), huge(39, **FAST)] + kinds(39, 200, 3000), 9000, 200000,
      'an evaluation is one call of an algorithm, whose constructions, destructions, memory and results are judged; distinct counts different '
      '(algorithm, iterator kind, lengths, constructor that throws)',
      'runtime monitoring: element-lifetime monitor and recording allocator with injected exceptions, under ' + ASAN,
      'Held on the calls run: lengths up to 9 (40 for trivial elements), an exception of every constructor.',
      thorough_variants=[variant('uninitialized_clang', 'memory.cpp', flags=['-DPART=39'], san='none', opt='2', cxx='clang++')])
check('C40', [variant('aligned', 'memory.cpp', flags=['-DPART=40'], opt='0'),
              variant('aligned_release', 'memory.cpp', flags=['-DPART=40'], san='none', opt='2')], 1200, 10000,
      'an evaluation is one storage whose address, alignment and extent are judged, or one construction; distinct counts different (place, '
      'alignment, size)',
      'runtime monitoring: address oracle, written neighbours, element-lifetime monitor, under ' + ASAN,
      'Held for twelve element types, alignments 1 to 4096, in automatic, static, thread local, heap, member, base and array storage.',
      thorough_variants=[variant('aligned_clang', 'memory.cpp', flags=['-DPART=40'], san='none', opt='2', cxx='clang++')])

# --- Ranges and algorithms -------------------------------------------------------------------
check('C48', [variant('mixin', 'mixin.cpp'), variant('mixin_clang', 'mixin.cpp', cxx='clang++', san='none', opt='2')], 2000, 100000,
      'an evaluation is one member of a range derived from IContainer, whose being offered or whose result, steps and reads are judged; distinct counts different '
      '(iterator category, sentinel, access, length)',
      'runtime monitoring: counting, bounds checked iterators of every category next to a plain vector, under ' + ASAN,
      'Held for the categories, sentinels and lengths (up to 60) run. The category is the one range-v3 sees in the iterators.',
      thorough_variants=[variant('mixin_23', 'mixin.cpp', flags=['-std=c++23'])])
algorithms = [variant('algorithms%d' % k, 'algorithms.cpp', flags=['-DPART=%d' % k], opt='0') for k in range(5)]
check('C49', algorithms, 1500, 60000,
      'an evaluation is one result, position or content compared with that of the same algorithm over the equivalent standard container; distinct counts different '
      '(algorithm, kind of range, result or length)',
      'runtime monitoring: differential oracle (the standard containers) over random contents and algorithms, under ' + ASAN,
      'Held on the contents and algorithms run (about 130 functions), for five element types.',
      thorough_variants=[variant('algorithms%d_clang' % k, 'algorithms.cpp', flags=['-DPART=%d' % k], san='none', opt='2', cxx='clang++') for k in range(5)])

check('C50', [variant('cost', 'cost.cpp'), variant('cost_clang', 'cost.cpp', cxx='clang++', san='none', opt='2')], 4000, 200000,
      'an evaluation is one operation whose copies, moves, constructions, destructions, comparisons and allocations are counted and judged; distinct counts different '
      '(operation, copies, moves, allocations)',
      'runtime monitoring: counters in the elements and in operator new around each operation, against bounds from its documented complexity, under ' + ASAN,
      'Held for the operations and states run; the numbers of moves are bounded with slack, copies and allocations exactly.',
      thorough_variants=[variant('cost_release', 'cost.cpp', **FAST)])

# --- Types -----------------------------------------------------------------------------------
check('C41', [variant('types', 'types.cpp', opt='0'),
              variant('types_23', 'types.cpp', flags=['-std=c++23'], san='none', opt='0', cxx='clang++'),
              variant('types_clang', 'types.cpp', san='none', opt='0', cxx='clang++')], 10, 10,
      'an evaluation is one type classified by a concept or trait, or one name compared; distinct counts different types, names and macros',
      'runtime monitoring: classification reported by the compiled program compared with the definition of each concept, trait and name',
      'Held for the types listed in the driver with g++ (C++20) and clang++ (C++20 and C++23) on Linux x86-64.')

# --- Modules ---------------------------------------------------------------------------------
check('C42', [variant('modules%d' % k, 'modules.cpp', flags=['-DPART=%d' % k], san='asan' if k == 0 else 'none', opt='0', cxx='clang++', modules=True)
              for k in range(6)], 1600, 20000,
      'an evaluation is one use of an exported entity whose result is compared with a plain model; distinct counts different sizes, positions and values',
      'runtime monitoring: programs that import the modules, compared with models, under ' + ASAN,
      'Held on the histories run, built by clang++ 18 with libstdc++; covers the names the modules export, by import of xme and of each module alone.')

# --- Assertions ------------------------------------------------------------------------------
check('C43', [variant('asserts', 'asserts.cpp', san='none', opt='1'), variant('asserts_clang', 'asserts.cpp', cxx='clang++', san='none', opt='2')], 1200, 10000,
      'an evaluation is one use, inside or outside the asserted bounds, run in a child process and judged by how that ends; distinct counts different '
      '(operation, index or size, bound)',
      'runtime monitoring: death of a child process at a misuse, survival otherwise, over random histories',
      'Assertions enabled (no NDEBUG), g++ and clang++. A child that ends by another signal than SIGABRT counts as not stopped.')

# --- Threads ---------------------------------------------------------------------------------
avx2 = ['-mavx2', '-DXME_SIMD_ENABLE_AVX2']
check('C45', [variant('threads', 'threads.cpp', san='tsan'), variant('threads_clang', 'threads.cpp', san='tsan', cxx='clang++', flags=avx2 + ['-DNDEBUG'], cpu=['avx2'])], 18, 150,
      'an evaluation is one task (a random history on one part of the library) run by one of four threads and compared with the result of the same '
      'task in a single thread; distinct counts different results',
      'runtime monitoring: ThreadSanitizer over threads that use every part of the library at once, results compared with those of a single thread',
      'Happens-before race detection on the executions run: races show whatever the interleaving, but only in the operations the tasks use.',
      shards=1, parallel=2, thorough_shards=4, assumptions=['threads share only constant objects', 'no thread changes the process environment'])

# --- Translation units -----------------------------------------------------------------------
HEADERS = """
aligned_data container/aligned_data
array container/array
array_view container/array_view
container_concepts container/concepts
container container/container
container_policy container/container_policy
heap container/heap
icontainer container/icontainer
linked_list container/linked_list
pair container/pair
spsc_queue container/spsc_queue
tuple container/tuple
find core/algorithm/find
reverse core/algorithm/reverse
has_single_bit core/bit/has_single_bit
arithmetic core/concepts/arithmetic
concepts core/concepts/concepts
constant_iterator core/concepts/constant_iterator
different_from core/concepts/different_from
bind core/functional/bind
delegate core/functional/delegate
scoped_delegate core/functional/scoped_delegate
const_iterator core/iterators/const_iterator
iterator_traits core/iterators/iterator_traits
reverse_iterator core/iterators/reverse_iterator
is_initializer_list core/type_traits/is_initializer_list
is_scoped_enum core/type_traits/is_scoped_enum
forward_like core/utility/forward_like
to_unsigned core/utility/to_unsigned
architecture_detection hal/architecture_detection
compiler_detection hal/compiler_detection
linux_platform hal/linux/platform
linux_platform_macros hal/linux/platform_macros
platform hal/platform
platform_macros hal/platform_macros
shared_library hal/shared_library
simd_detection hal/simd_detection
constants math/constants
glsl_mapping math/glsl_mapping
math math/math
matrices_functions math/matrices/functions
matrix4x4 math/matrices/matrix4x4
perspective math/matrices/perspective
transformation math/matrices/transformation
matrix math/matrix
quaternion math/quaternion
scalar_functions math/scalars/functions
trigonometry math/scalars/trigonometry
vector math/vector
vectors_functions math/vectors/functions
geometry math/vectors/geometry
vector2 math/vectors/vector2
vector3 math/vectors/vector3
vector4 math/vectors/vector4
destroy ranges/destroy
uninitialized ranges/uninitialized
setup setup
"""
headers = [(l.split()[0], 'xme/%s.hpp' % l.split()[1]) for l in HEADERS.split('\n') if l]
check('C46', [variant('units', 'units.cpp', units=headers, flags=avx2, cpu=['avx2']),
              variant('units_clang', 'units.cpp', units=headers, san='none', opt='2', cxx='clang++', flags=['-mssse3', '-DXME_SIMD_ENABLE_SSSE3'], cpu=['ssse3'])], 120, 2000,
      'an evaluation is one use of an object, made, used and destroyed in different translation units, compared with the same use in one unit; '
      'distinct counts different results',
      'runtime monitoring: one program of a unit per header, results and layouts compared between units, under ' + ASAN,
      'Every public header alone, and all of them in two orders, linked into one program with g++ and clang++. Other orders and subsets of headers are not built.')

# --- Constant expressions --------------------------------------------------------------------
CONSTANT = ['-fconstexpr-ops-limit=300000000', '-fconstexpr-loop-limit=10000000']
CONSTANT_CLANG = ['-fconstexpr-steps=300000000']


def constant(name, part, level=None, many=False, **kw):
    flags, cpu = LEVELS[level] if level else ([], [])
    more = CONSTANT_CLANG if kw.get('cxx') == 'clang++' else CONSTANT
    return variant('constant%d%s' % (part, name), 'constant.cpp', flags=['-DPART=%d' % part] + more + flags + (['-DMANY'] if many else []), cpu=cpu, **kw)


CLANG = dict(cxx='clang++', san='none', opt='3')
check('C47', [constant('', k) for k in range(3)] + [constant('_avx2', 1, 'avx2'), constant('_ssse3', 1, 'ssse3', **FAST)]
      + [constant('_release', 2, **FAST)] + [constant('_clang', k, **CLANG) for k in (0, 2)] + [constant('_clang', 1, 'avx2', **CLANG)], 1, 1,
      'an evaluation is one value or condition of a program over the library that is run both by the compiler and by the processor, and compared; '
      'distinct counts different (program, results)',
      'runtime monitoring: programs run in the compilers\' interpreters of constant expressions, which stop at undefined behaviour and leaks, and executed under '
      + ASAN + ', results compared with each other and with plain models',
      'Held on the programs and seeds run, with g++ 13 and clang++ 18. LinkedList, SPSCQueue, Delegate and AlignedData keep elements in bytes or atomics, which '
      'constant expressions of C++20 can\'t use.',
      thorough_variants=[constant('_many', k, many=True, **FAST) for k in range(3)] + [constant('_many_clang', k, many=True, **CLANG) for k in range(3)]
      + [constant('_%s' % l, 1, l, **FAST) for l in ('sse2', 'sse41', 'avx512')])
