# What each property's check runs: harness sources, build modes, element types and bounds.
SERIOUS_ASSUMPTIONS = [
    'single-threaded use; the bound is stated in coverage.bounds and coverage.bounds_text, nothing is claimed outside it',
    'the bitcode is what clang 18 makes of the same headers at -O0 with the GCC configuration branch (AS_GCC); models of explored paths are re-run natively with g++',
    'memory model: every object lives in its own region, out-of-bounds, dangling, uninitialised and mismatched accesses are violations; addresses are concrete',
    'trusted: clang/opt, the engine in /verif/engine, libz3',
]
EX, NX = 'ex', 'nx'
def V(src, mode, elem=None, defs=(), params=None, deep=None, jobs=2, ignore=(), optional=False):
    d = {'src': src, 'mode': mode, 'jobs': jobs}
    if elem: d['elem'] = elem
    if defs: d['defs'] = list(defs)
    if params: d['params'] = params
    if deep: d['deep'] = deep
    if optional: d['optional'] = True
    if ignore: d['ignore_covers'] = list(ignore)
    return d

CHECKS = {}
def large(prop, quick, deep, text):
    """the same property on large containers of a fixed pattern with some arbitrary values"""
    c = CHECKS[prop]; steps = {'max_steps': 40000000}
    c['bounds'] += '; ' + text; c.setdefault('deep_bounds', c['bounds'])
    c['variants'] = c['variants'] + [V('large.cpp', m, None, (k,), dict(steps, **p), jobs=j) for m, k, p, j in quick]
    c['deep_variants'] = c.get('deep_variants', []) + [V('large.cpp', m, None, (k,), dict({'max_steps': 400000000}, **p), jobs=j) for m, k, p, j in deep]
def iters(prop, kind):
    c = CHECKS[prop]; c['bounds'] += '; every step of every kind of iterator from every position in up to 5 elements'
    c['variants'] = c['variants'] + [V('iters.cpp', m, None, (kind,), {'n': 6}, {'n': 8}, jobs=1) for m in (EX, NX)]
CHECKS['C01'] = dict(
    bounds='initial vectors of 0..4 elements (arbitrary 32-bit values) with 0..2 spare slots, one arbitrary operation out of 19 with arbitrary position/count (<=3..8) and values',
    variants=[V('vector_seq.cpp', m, e, d) for m, e, d in [
        (EX, None, ()), (NX, None, ()), (EX, 'TwoP', ('NX_TYPE',)), (NX, 'TwoP', ()), (EX, None, ('NX_TYPE',)), (EX, 'unsigned', ('ALLOC_DEF',)), (EX, 'Pod', ())]])
iters('C01', 'VECTORS')
large('C01', [(EX, 'VECTORS', {}, 2)], [(NX, 'VECTORS', {'n': 2000, 'k': 200}, 4)], 'one operation on a vector of 300 elements at the start, a third or the end')

CHECKS['C02'] = dict(
    bounds='0..4 elements, 0..4 spare slots, one arbitrary growing operation; reserve to 0..8; one of 7 operations on vectors of 9..3000 plain elements with little or much room; 48 appends (in 4 forms) of tracked and 30000 appends of plain elements for amortised growth',
    deep_bounds='0..6 elements, 0..6 spare slots; 60 appends of tracked and 200000 of plain elements',
    variants=[V('vector_cap.cpp', m, e, d, {'long': 30000, 'max_steps': 40000000}, {'long': 200000, 'max_steps': 300000000, 'maxn': 6, 'slack': 6, 'grow': 60}) for m, e, d in [(EX, None, ()), (NX, None, ()), (NX, 'TwoP', ()), (EX, 'Elem<1>', ('NX_TYPE',)), (EX, None, ('ALLOC_DEF',))]])
CHECKS['C04'] = dict(
    bounds='0..4 elements, 0..2 spare slots, one arbitrary fallible operation with arbitrary arguments, failure of an arbitrary (symbolic) allocation/copy/construction, once or persistently; then one further use',
    variants=[V('vector_fault.cpp', m, e, d, {'faults': 2}) for m, e, d in [
        (EX, 'Elem<0>', ()), (NX, 'Elem<0>', ()), (NX, 'TwoP', ()), (EX, 'Elem<1>', ()), (EX, 'Elem<7>', ()), (EX, 'Elem<1>', ('ALLOC_DEF',)), (EX, 'TwoP', ('NX_TYPE',))]])
CHECKS['C05'] = dict(
    bounds='as for C04',
    variants=[V('vector_fault.cpp', m, e, tuple(d) + ('STRONG',), {'faults': 2}) for m, e, d in [
        (EX, 'Elem<0>', ()), (NX, 'Elem<0>', ()), (NX, 'TwoP', ()), (EX, 'Elem<1>', ()), (EX, 'Elem<5>', ('NX_TYPE',))]])
CHECKS['C06'] = dict(
    bounds='lists of 0..4 elements of arbitrary value, one arbitrary operation out of 29 with arbitrary positions, counts (<=4) and values; splice between two lists of up to 4 and 3 elements',
    variants=[V('list_seq.cpp', m, e, d) for m, e, d in [(EX, None, ()), (NX, None, ()), (NX, 'TwoP', ()), (EX, None, ('WRAPPED',)), (EX, 'unsigned', ('ALLOC_DEF',)), (NX, 'Pod', ())]])
iters('C06', 'LISTS')
large('C06', [(EX, 'LISTS', {}, 2)], [(NX, 'LISTS', {'n': 2000, 'k': 200}, 4)], 'one operation on a list of 300 elements at the start, a third or the end')

CHECKS['C08'] = dict(
    bounds='lists of 0..3 elements, one arbitrary fallible operation, failure of an arbitrary step, once or persistently; then one further use',
    variants=[V('list_fault.cpp', m, e, d, {'faults': 2}) for m, e, d in [(EX, 'Elem<0>', ()), (NX, 'Elem<0>', ()), (NX, 'TwoP', ()), (EX, 'Elem<1>', ()), (EX, 'Elem<7>', ()), (EX, 'Elem<5>', ('WRAPPED',)), (EX, 'Elem<1>', ('ALLOC_DEF',))]])
CHECKS['C03'] = dict(
    bounds='requested sizes over all 2^64 values; element sizes 1,2,3,8,16,24,40; vectors of 0..2 elements before the request; the memory system serves at most 96 bytes (list: five more nodes); vectors of 0, 90, 140 elements whose allocator counts in 8 bits (sizes 2..252 apart from the neighbours of the current one: thorough only)',
    deep_bounds='as quick, with a memory system that serves up to 256 bytes',
    variants=[V('sizes.cpp', m, deep={'limit': 256, 'all': 1}, jobs=4) for m in (EX, NX)])
SORT_COV = ['sort', 'long', 'merge']
def sortv(mode, elem=None, defs=(), deep_only=None, keep=None, jobs=4):
    return V('list_sort.cpp', mode, elem, defs, deep_only, jobs=jobs, ignore=[c for c in SORT_COV if keep and c not in keep])
CHECKS['C07'] = dict(
    bounds='sort of lists of 0..5 elements of arbitrary value and of 8..17 elements two of which are arbitrary; merge of ordered lists of 0..3 and 0..3 arbitrary elements; three orders, one of them with equivalent elements',
    deep_bounds='sort of 0..6 arbitrary elements; 8..17 and 17..18, 33..34, 65 elements with two arbitrary; merge of up to 4 and 4',
    variants=[sortv(EX), sortv(NX), sortv(EX, None, ('WRAPPED',)), sortv(NX, 'TwoP')],
    deep_variants=[sortv(EX, None, (), {'part': 0, 'maxn': 6}, ['sort'], 8), sortv(NX, None, (), {'part': 1, 'big': 17, 'span': 2}, ['long']), sortv(NX, None, (), {'part': 1, 'big': 33, 'span': 2}, ['long']),
                   sortv(EX, None, (), {'part': 1, 'big': 65, 'span': 1}, ['long']), sortv(EX, None, (), {'part': 2, 'm1': 4, 'm2': 4}, ['merge'], 8)])
large('C07', [(EX, 'SORT', {'n': 260, 'span': 1, 'keys': 24}, 4), (NX, 'SORT', {'n': 1030, 'span': 1, 'keys': 2}, 2)], [(EX, 'SORT', {'n': 260, 'span': 2, 'keys': 0}, 8), (NX, 'SORT', {'n': 4000, 'span': 1, 'keys': 1}, 3)], 'sort of 260 and 1030 elements in three patterns, one of them arbitrary')

CHECKS['C09'] = dict(
    bounds='as for C06; also sort and merge, as for C07 with 0..4 elements',
    deep_bounds='as quick, sort and merge as for C07',
    variants=[V('list_seq.cpp', m, e, tuple(d) + ('STABLE',)) for m, e, d in [(EX, None, ()), (NX, 'TwoP', ()), (EX, None, ('WRAPPED',))]] +
             [V('list_sort.cpp', m, None, (), {'maxn': 4, 'big': 8, 'span': 2, 'm1': 2, 'm2': 2}, {'maxn': 5, 'span': 10, 'm1': 3, 'm2': 3}) for m in (EX, NX)])

CHECKS['C10'] = dict(
    bounds='sets built from 0..3 arbitrary keys (8 bit; 32 bit in one variant) in three orders (one with equivalent keys), then one arbitrary operation out of 8 and an arbitrary lookup; trees of 7..10 keys in four insertion patterns followed by two arbitrary insertions or erasures; trees of 31 keys drained by an arbitrary count in four orders',
    deep_bounds='as quick with 4 arbitrary initial keys, two operations in a row on 2 keys, three on trees of 12, 9..11 keys and any operation',
    variants=[V('set_seq.cpp', EX, None, (), {'maxn': 3}, {'maxn': 4}, jobs=3), V('set_seq.cpp', NX, 'TwoP', (), {'maxn': 3}, jobs=2), V('set_seq.cpp', EX, None, ('WIDE',), {'maxn': 2}, {'maxn': 3}),
              V('set_seq.cpp', NX, None, (), {'maxn': 3}), V('set_seq.cpp', EX, 'unsigned', ('ALLOC_DEF',), {'maxn': 3}), V('set_seq.cpp', NX, 'Pod', (), {'maxn': 2}, {'maxn': 3}),
              V('set_balance.cpp', EX, None, ('CONTENT',), jobs=4, ignore=['drained']), V('set_balance.cpp', NX, None, ('CONTENT',), {'n': 31, 'span': 1, 'steps': 0, 'drain': 1}, jobs=2)],
    deep_variants=[V('set_seq.cpp', EX, None, (), {'big': 9, 'steps': 1}, jobs=4), V('set_seq.cpp', EX, None, (), {'maxn': 2, 'steps': 2}, jobs=8),
                   V('set_balance.cpp', EX, None, ('CONTENT',), {'n': 12, 'span': 1, 'steps': 3}, jobs=8, ignore=['drained']), V('set_balance.cpp', NX, None, ('CONTENT',), {'n': 24, 'span': 1, 'steps': 1, 'drain': 1}, jobs=4)])
iters('C10', 'SETS')
large('C10', [(EX, 'SETS', {'n': 300, 'keys': 5, 'from': 2}, 3)], [(EX, 'SETS', {'n': 300, 'keys': 300}, 8), (NX, 'SETS', {'n': 2001, 'keys': 3, 'from': 700}, 3)], 'sets of 300 keys in three patterns, insertion or erasure of an arbitrary key out of 40, copy and move')

CHECKS['C11'] = dict(
    bounds='trees of 7..10 keys in four insertion patterns, two arbitrary insertions or erasures, an arbitrary lookup; trees of 31 and 63 keys drained by an arbitrary count in four orders; at most 2*log2(n+1)+const comparisons per operation; in two variants also the red-black conditions on the tree the iterators walk on (skipped if the node layout changes)',
    deep_bounds='also three arbitrary changes on trees of 12 keys, one arbitrary change after draining a tree of 24 keys; trees of 127 keys',
    variants=[V('set_balance.cpp', EX, jobs=4, ignore=['drained']), V('set_balance.cpp', NX, None, (), {'n': 31, 'span': 1, 'steps': 0, 'drain': 1}, jobs=2), V('set_balance.cpp', EX, None, (), {'n': 63, 'span': 1, 'steps': 0, 'drain': 1}, jobs=2),
              V('set_balance.cpp', EX, None, ('COLORS',), {'order': 1}, jobs=4, ignore=['drained'], optional=True), V('set_balance.cpp', NX, None, ('COLORS',), {'n': 40, 'span': 1, 'steps': 0, 'drain': 1}, jobs=2, optional=True)],
    deep_variants=[V('set_balance.cpp', EX, None, (), {'n': 12, 'span': 1, 'steps': 3}, jobs=8, ignore=['drained']), V('set_balance.cpp', NX, None, (), {'n': 24, 'span': 1, 'steps': 1, 'drain': 1}, jobs=4),
                   V('set_balance.cpp', NX, None, (), {'n': 127, 'span': 1, 'steps': 0, 'drain': 1}, jobs=4), V('set_balance.cpp', EX, None, ('COLORS',), {'n': 12, 'span': 2, 'steps': 2, 'drain': 0}, jobs=8, ignore=['drained'], optional=True)])
CHECKS['C12'] = dict(
    bounds='sets of 0..5 keys, insertion of an arbitrary key or copy onto a set of 0..3 keys, failure of an arbitrary step (also the assignment of comparator or allocator), once or persistently; then a further arbitrary insertion and erasure',
    variants=[V('set_fault.cpp', EX, 'Elem<0>'), V('set_fault.cpp', EX, 'Elem<1>'), V('set_fault.cpp', EX, 'Elem<1>', ('RISKY_ASSIGN',), {'maxn': 2}, {'maxn': 5}), V('set_fault.cpp', EX, 'Elem<7>'), V('set_fault.cpp', NX, 'Elem<0>'), V('set_fault.cpp', NX, 'TwoP'), V('set_fault.cpp', EX, 'Elem<5>', ('ALLOC_DEF',))])
CHECKS['C13'] = dict(
    bounds='sets built from 0..3 arbitrary 8-bit keys, then one arbitrary operation, every iterator taken before is used after it; trees of 7..9 keys in four insertion patterns, then one arbitrary insertion or erasure, every address compared',
    deep_bounds='also 0..4 keys, 9..11 keys in four insertion patterns, and two operations in a row on 2 keys',
    variants=[V('set_seq.cpp', EX, None, ('STABLE',), {'maxn': 3}, {'maxn': 4}, jobs=4), V('set_seq.cpp', NX, 'TwoP', ('STABLE',), {'maxn': 3}, jobs=4),
              V('set_balance.cpp', EX, None, ('CONTENT',), {'n': 7, 'span': 3, 'steps': 1}, {'steps': 2}, jobs=4, ignore=['drained'])],
    deep_variants=[V('set_seq.cpp', EX, None, ('STABLE',), {'big': 9, 'steps': 1}, jobs=4), V('set_seq.cpp', EX, None, ('STABLE',), {'maxn': 2, 'steps': 2}, jobs=8)])
CHECKS['C14'] = dict(
    bounds='arbitrary ownership graphs of two live values and one destroyed one, two shared and up to two weak pointers, arbitrary links between the values (cycles included), then one arbitrary operation out of 28; conversions to base and const: two values, five pointers, one arbitrary operation out of 14',
    deep_bounds='also two operations in a row (without links between the values), three conversions in a row',
    variants=[V('shared.cpp', EX, None, (), None, jobs=3), V('shared.cpp', NX, None, (), {'links': 1, 'strong': 1}, jobs=4), V('shared_conv.cpp', EX), V('shared_conv.cpp', NX)],
    deep_variants=[V('shared.cpp', NX, None, (), {'links': 1}, jobs=8), V('shared.cpp', EX, None, (), {'steps': 2, 'strong': 1}, jobs=8), V('shared_conv.cpp', EX, None, (), {'steps': 2}, jobs=8)])
large('C14', [(EX, 'SHARED', {}, 2)], [], 'a value with 70000 owners')

CHECKS['C15'] = dict(
    bounds='as for C14, with the operations that make, copy, move, reset or lock an observer',
    deep_bounds='also one operation of any kind before',
    variants=[V('shared.cpp', EX, None, ('WEAK',), {'links': 1}, jobs=4), V('shared.cpp', NX, None, ('WEAK',), None, jobs=3)],
    deep_variants=[V('shared.cpp', EX, None, ('WEAK',), {'steps': 2}, jobs=8)])
large('C15', [(NX, 'SHARED', {}, 2)], [], 'a value with 70000 observers')

CHECKS['C16'] = dict(
    bounds='one construction with arbitrary arguments in 8 forms (value, default, copy, move, two arguments, reference, const and rvalue forwarding), through an allocator chosen out of three or the default one, failure of an arbitrary step once or persistently, then a second construction',
    variants=[V('shared_make.cpp', m, e, d, jobs=1) for m, e, d in [(EX, 'Elem<0>', ()), (EX, 'Elem<5>', ()), (EX, 'Elem<7>', ()), (EX, 'Elem<7>', ('ALLOC_DEF',)), (EX, 'TwoP', ('TWOP',)), (NX, 'TwoP', ('TWOP',)), (NX, 'Elem<0>', ())]])

BOTH = ('not made', 'not assigned'); NOFAIL = ('cause', 'failed')
CHECKS['C17'] = dict(
    bounds='one construction or assignment with arbitrary argument values in 12 forms, failure of an arbitrary step once or persistently; element types whose copy, move, construction or initialisation may fail',
    variants=[V('class_ops.cpp', EX, 'Elem<0>', ignore=BOTH, jobs=1), V('class_ops.cpp', EX, 'Elem<1>', jobs=1), V('class_ops.cpp', EX, 'Elem<2>', jobs=1), V('class_ops.cpp', EX, 'Elem<4>', ignore=('not assigned',), jobs=1), V('class_ops.cpp', EX, 'Elem<7>', jobs=1),
              V('class_ops.cpp', EX, 'TwoP', ('TWOP',), jobs=1), V('class_ops.cpp', NX, 'TwoP', ('TWOP',), jobs=1), V('class_ops.cpp', NX, 'Elem<0>', ignore=BOTH, jobs=1)])
def faulty(defs):
    out = []
    for m, e in ((EX, 'Elem<1>'), (EX, 'Elem<7>'), (NX, 'TwoP')):
        out.append(V('vector_fault.cpp', m, e, defs, {'faults': 2, 'maxn': 3}, {'maxn': 4}))
        out.append(V('list_fault.cpp', m, e, defs, {'faults': 2}))
        out.append(V('set_fault.cpp', m, e, tuple(defs) + (('RISKY_ASSIGN',) if e == 'Elem<1>' else ()), {'maxn': 2}, {'maxn': 4}))
        out.append(V('shared_make.cpp', m, e, tuple(defs) + (('TWOP',) if e == 'TwoP' else ()), jobs=1))
        out.append(V('class_ops.cpp', m, e, tuple(defs) + (('TWOP',) if e == 'TwoP' else ()), jobs=1))
    out.append(V('algo.cpp', EX, 'Elem<1>', defs))
    out += [V('nested.cpp', EX, 'Elem<1>', defs, {'maxn': 1}, {'maxn': 2}, jobs=2), V('nested.cpp', NX, 'TwoP', tuple(defs) + ('OUTER_LIST', 'INNER_LIST'), {'maxn': 1}, {'maxn': 2}, jobs=2), V('nested.cpp', EX, 'Elem<1>', tuple(defs) + ('INNER_LIST',), {'maxn': 1}, {'maxn': 2}, jobs=2)]
    out += [V('sizes.cpp', m, None, defs, jobs=2) for m in (EX, NX)]
    return out
CHECKS['C18'] = dict(
    bounds='two errors holding any of 8 kinds of failure (or none) with arbitrary content, copied, assigned, moved, cleared and thrown; then one arbitrary fallible operation on vectors of 0..3, lists of 0..3, sets of 0..2 elements or make_shared, one construction, assignment or copy of a range of 0..4 elements, an operation on a container of 0..1 containers, failure of an arbitrary step, once or persistently, by an exception of any of four kinds; sizes over all 2^64 values',
    deep_bounds='as quick with vectors and sets of 0..4 elements',
    variants=[V('errors.cpp', EX), V('errors.cpp', NX)] + faulty(('CAUSE',)))
CHECKS['C20'] = dict(
    bounds='as for C04, C08, C12, C16, C17, C23 and C03 and copying ranges of 0..4 elements, with vectors of 0..3, sets of 0..2 elements and containers of 0..1 containers, and an error type of the user that offers nothing but a test for being set and the functions found by argument dependent lookup',
    deep_bounds='as quick with vectors and sets of 0..4 elements',
    variants=faulty(('CAUSE', 'USER_ERR')))
CHECKS['C19'] = dict(
    bounds='two containers of 0..4 and 0..3 arbitrary elements with 0..1 spare slots, one arbitrary operation out of 11 (list: 7), failure of an arbitrary step, once or persistently',
    variants=[V('wrap.cpp', EX, e, tuple(d) + l) for e, d in (('Elem<0>', ()), ('Elem<1>', ()), ('Elem<5>', ()), ('Elem<1>', ('ALLOC_DEF',))) for l in ((), ('LISTS',))])
CHECKS['C21'] = dict(
    bounds='ranges of 0..4 arbitrary elements read through single-pass, list and pointer iterators, arbitrary predicate bit, failure of an arbitrary element copy; comparison of ranges and containers of 0..4 and 0..4 elements',
    deep_bounds='0..5 elements',
    variants=[V('algo.cpp', EX, 'Elem<1>', (), None, {'maxn': 5}), V('algo.cpp', EX, 'Elem<0>', ignore=NOFAIL), V('algo.cpp', NX, 'Elem<0>', ignore=NOFAIL), V('algo.cpp', NX, 'Pod', ignore=NOFAIL, jobs=1)])
CHECKS['C22'] = dict(
    bounds='two containers of 0..3 elements with distinguishable allocators, one arbitrary operation out of 10, then one more element in each; five allocator designs; make_shared as for C16',
    variants=[V('alloc.cpp', m, None, (k,), jobs=1) for k in ('VECTORS', 'LISTS', 'SETS') for m in (EX, NX)] +
             [V('alloc.cpp', EX, None, d, jobs=1) for d in (('VECTORS', 'WRAPPED'), ('LISTS', 'WRAPPED'), ('VECTORS', 'ALLOC=MinAlloc'), ('SETS', 'ALLOC=MinAlloc'), ('SETS', 'ALLOC=MinAlloc', 'PROP'), ('LISTS', 'ALLOC=FrontAlloc'), ('SETS', 'ALLOC=FrontAlloc'))] +
             [V('shared_make.cpp', m, e, d, jobs=1) for m, e, d in [(EX, 'Elem<7>', ()), (NX, 'TwoP', ('TWOP',))]])
CHECKS['C23'] = dict(
    bounds='outer containers of 0..2 inner containers of 0..2 arbitrary elements, one arbitrary operation out of 8, failure of an arbitrary step of the outer or the inner container or an element, once or persistently; all eight combinations of vector and list',
    deep_bounds='also outer containers of 0..3',
    variants=[V('nested.cpp', m, e, o + i, None, {'maxn': 3}) for o in ((), ('OUTER_LIST',)) for i, m, e in (((), EX, 'Elem<1>'), (('INNER_LIST',), EX, 'Elem<1>'), (('INNER_WRAP',), EX, 'Elem<5>'), (('INNER_WLIST',), EX, 'Elem<1>'), ((), NX, 'TwoP'), (('INNER_LIST',), NX, 'TwoP'))])
CHECKS['C24'] = dict(
    bounds='element types aligned to 16, 32, 64, 256 and 4096 bytes, allocators that align to no more than that; vectors of 0..3 elements and one arbitrary operation out of 8, lists of 0..3, sets of 0..4 arbitrary keys, make_shared; every access of every harness is also checked against the alignment its type needs',
    variants=[V('align.cpp', m, None, ('AL=%d' % a,)) for m in (EX, NX) for a in (16, 32, 64, 256, 4096)])
CHECKS['C25'] = dict(
    bounds='containers of 0..4 (set: 0..3) arbitrary elements, one arbitrary operation whose argument is an arbitrary element (or sub-range) of the container itself, or the container itself; 1..3 elements one of which owns an object that is the argument; with and without failure of an arbitrary step',
    variants=[V('alias.cpp', EX, None, (), {'faults': 0}, ignore=NOFAIL), V('alias.cpp', EX, 'Elem<5>', (), {'faults': 2}, jobs=4), V('alias.cpp', NX, 'TwoP', (), {'faults': 2}, jobs=4),
              V('alias.cpp', EX, None, ('LISTS',), {'faults': 0}, ignore=NOFAIL), V('alias.cpp', EX, 'Elem<5>', ('LISTS',), {'faults': 2}), V('alias.cpp', NX, 'TwoP', ('LISTS',), {'faults': 2}), V('alias.cpp', EX, 'Elem<5>', ('LISTS', 'WRAPPED'), {'faults': 2, 'maxn': 3}, jobs=2),
              V('set_alias.cpp', EX, jobs=4), V('set_alias.cpp', NX, 'TwoP', jobs=4),
              V('owned.cpp', EX, jobs=2), V('owned.cpp', NX, jobs=1), V('owned.cpp', EX, None, ('LISTS',), jobs=1), V('owned.cpp', NX, None, ('LISTS',), jobs=1)])
CHECKS['C26'] = dict(
    bounds='containers of 0..2 elements with or without spare capacity, one arbitrary insertion out of 9 (list: 12) at an arbitrary position, in every form of argument, with arbitrary values; sets of 0..2 arbitrary keys; three insertions of move-only elements',
    variants=[V('forward.cpp', m, None, (k,), jobs=2) for k in ('VECTORS', 'LISTS', 'SETS') for m in (EX, NX)] +
             [V('odd.cpp', m, None, (k,), jobs=1) for k in ('VECTORS', 'LISTS', 'SETS') for m in (EX, NX)])
for c in ('C16', 'C17'): CHECKS[c]['variants'] = CHECKS[c]['variants'] + [V('odd.cpp', m, None, ('SHARED',), jobs=1) for m in (EX, NX)]

# The same at a middle size: containers of a fixed 9..17 elements, positions and counts near both ends and in the middle.
def mid(prop, *vs):
    c = CHECKS[prop]; text = '; the same on containers of 9..17 (C12: 12) elements, at 6 positions and counts near both ends and in the middle'
    c['bounds'] += text; c['variants'] = c['variants'] + list(vs)
    if 'deep_bounds' in c: c['deep_bounds'] += text
MID = ('MID',)
mid('C01', V('vector_seq.cpp', EX, None, MID, {'mid': 9}, {'mid': 17}, jobs=1), V('vector_seq.cpp', NX, None, MID, {'mid': 16}, {'mid': 33}, jobs=1))
mid('C04', V('vector_fault.cpp', EX, 'Elem<1>', MID, {'faults': 1}, {'faults': 2, 'mid': 17}, jobs=4), V('vector_fault.cpp', NX, 'TwoP', MID, {'faults': 1, 'mid': 17}, {'faults': 2}, jobs=4))
mid('C05', V('vector_fault.cpp', EX, 'Elem<5>', MID + ('STRONG',), {'faults': 1}, {'faults': 2, 'mid': 17}, jobs=4), V('vector_fault.cpp', NX, 'TwoP', MID + ('STRONG',), {'faults': 1, 'mid': 17}, {'faults': 2}, jobs=4))
mid('C06', V('list_seq.cpp', EX, None, MID, {'mid': 9}, {'mid': 17}, jobs=4))
mid('C09', V('list_seq.cpp', NX, None, MID + ('STABLE',), {'mid': 9}, {'mid': 17}, jobs=4))
mid('C08', V('list_fault.cpp', EX, 'Elem<1>', MID, {'faults': 1}, {'faults': 2, 'mid': 17}, jobs=4), V('list_fault.cpp', NX, 'TwoP', MID, {'faults': 1}, {'faults': 2, 'mid': 17}, jobs=4))
mid('C12', V('set_fault.cpp', EX, 'Elem<1>', MID, {'faults': 1, 'mid': 12}, {'faults': 1, 'mid': 20}, jobs=8), V('set_fault.cpp', NX, 'TwoP', MID, {'faults': 1, 'mid': 12}, {'faults': 1, 'mid': 20}, jobs=8))
mid('C19', V('wrap.cpp', EX, 'Elem<1>', MID, jobs=1), V('wrap.cpp', EX, 'Elem<1>', MID + ('LISTS',), jobs=1))
mid('C21', V('algo.cpp', EX, 'Elem<1>', MID, {'maxn': 17}, jobs=4), V('algo.cpp', NX, 'Elem<0>', MID, {'maxn': 17}, jobs=4, ignore=NOFAIL))
mid('C22', *[V('alloc.cpp', EX, None, (k,) + MID, jobs=1) for k in ('VECTORS', 'LISTS', 'SETS')])
mid('C23', V('nested.cpp', EX, 'Elem<1>', MID, {'maxn': 9}, jobs=2), V('nested.cpp', NX, 'TwoP', MID + ('OUTER_LIST', 'INNER_LIST'), {'maxn': 9}, jobs=2))
mid('C25', V('alias.cpp', EX, 'Elem<5>', MID, {'faults': 1}, {'mid': 17, 'faults': 2}, jobs=4), V('alias.cpp', EX, 'Elem<5>', MID + ('LISTS',), {'faults': 1}, {'mid': 17, 'faults': 2}, jobs=4))
mid('C26', V('forward.cpp', EX, None, MID + ('VECTORS',), jobs=1), V('forward.cpp', NX, None, MID + ('LISTS',), jobs=1))
for _p, _d in (('C01', ()), ('C06', ('LISTS',))):
    CHECKS[_p]['variants'] += [V('ranges.cpp', m, None, _d, jobs=1) for m in (EX, NX)] + [V('ranges.cpp', EX, None, _d + ('MID',), {'maxn': 9, 'maxk': 10}, jobs=4)]
    CHECKS[_p]['bounds'] += '; ranges of 0..10 elements from 15 kinds of iterators assigned or inserted'
CHECKS['C27'] = dict(
    bounds='trees of 0..3 elements with arbitrary keys (also equal ones) in both orders, one arbitrary operation out of 15 with every hint, position and key, and an insertion after it; with failures: trees of 0..2 elements, an arbitrary step, once or persistently; trees of 9 and 10 elements in three regular fillings, the key arbitrary',
    deep_bounds='as quick, with 0..4 (failures: 0..3) and 16..18 elements',
    variants=[V('tree.cpp', m, None, (), {'maxn': 3}, {'maxn': 4}, jobs=4, ignore=('failed',), optional=True) for m in (EX, NX)] +
             [V('tree.cpp', EX, 'Elem<7>', (), {'maxn': 2, 'faults': 2}, {'maxn': 3}, jobs=2, optional=True), V('tree.cpp', NX, None, (), {'maxn': 2, 'faults': 2}, {'maxn': 3}, jobs=2, optional=True),
              V('tree.cpp', EX, 'Elem<1>', MID, {'mid': 9, 'more': 2}, {'mid': 16, 'more': 3}, jobs=4, ignore=('failed',), optional=True)] +
             [V('set_seq.cpp', EX, None, ('STABLE', 'WIDE'), {'maxn': 2}, {'maxn': 3})])   # through set alone, whatever the tree's members are called
# two operations in a row
_h = ('MAXK=1',)
for _p, _v in (('C01', V('vector_seq.cpp', EX, None, _h, {'steps': 2, 'maxn': 1, 'slack': 1}, {'maxn': 2}, jobs=4)),
               ('C06', V('list_seq.cpp', EX, None, _h + ('HIST',), {'steps': 2, 'maxn': 1}, jobs=4)), ('C09', V('list_seq.cpp', NX, None, _h + ('STABLE',), {'steps': 2, 'maxn': 1}, jobs=4)),
               ('C08', V('list_fault.cpp', EX, 'Elem<1>', _h, {'steps': 2, 'maxn': 1, 'faults': 1}, {'faults': 2}, jobs=4)),
               ('C10', V('set_seq.cpp', EX, None, (), {'steps': 2, 'maxn': 1}, jobs=4)), ('C13', V('set_seq.cpp', EX, None, ('STABLE',), {'steps': 2, 'maxn': 1}, jobs=2))):
    CHECKS[_p]['variants'] += [_v]; CHECKS[_p]['bounds'] += '; two arbitrary operations in a row on 0..1 elements'
large('C09', [(EX, 'LISTS', {}, 2), (EX, 'SORT', {'n': 260, 'span': 1, 'keys': 8}, 4)], [], 'one operation on a list of 300 elements, a sort of 260')
large('C13', [(EX, 'SETS', {'n': 300, 'keys': 5, 'from': 2}, 3)], [], 'sets of 300 keys in three patterns')
CHECKS['C22']['variants'] += [V('large.cpp', EX, None, ('VECTORS', 'TRACK'), {'max_steps': 40000000}, jobs=1)]; CHECKS['C22']['bounds'] += '; one operation on a vector of 300 elements'
