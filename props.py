#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json, os
from checks import CHECKS
H = os.path.dirname(os.path.abspath(__file__))
VEC, LST, SET, RBT, SP = ('nestl/implementation/' + x for x in ('vector.hpp', 'list.hpp', 'set.hpp', 'detail/red_black_tree.hpp', 'shared_ptr.hpp'))
HV, HL, CO = 'nestl/has_exceptions/vector.hpp', 'nestl/has_exceptions/list.hpp', 'nestl/class_operations.hpp'
DES, UNI, ALG, AL, AT, ATH = 'nestl/detail/destroy.hpp', 'nestl/detail/uninitialised_copy.hpp', 'nestl/algorithm.hpp', 'nestl/allocator.hpp', 'nestl/allocator_traits.hpp', 'nestl/detail/allocator_traits_helper.hpp'
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

p('C01', 'A vector behaves as a sequence under every operation',
  'After any operation on a vector (append by copy, move or construction in place, insertion of a value or a range anywhere, assignment of copies or a range, resize, reserve, shrink, clear, copy, move, swap) its size, element order and element values equal those of an ideal sequence given the same operation, and positions returned by the operation designate the right element. All views of the content (index, first/last, data, forward and reverse iteration, const and mutable) agree, and exactly as many element objects are alive as the size says.',
  ['inputs', 'histories', 'configurations'], 'all initial contents and spare capacities, all positions, counts and values, both exception modes, copyable and two-phase element types',
  'tests use a few literal vectors and positions; off-by-one errors depend on the combination of position, count, size and spare capacity',
  [VEC, UNI, DES, ALG], [('vector::emplace_back_nothrow / emplace_nothrow', VEC), ('vector::insert_nothrow, assign_nothrow, resize_nothrow', VEC), ('uninitialised_copy / destroy', UNI + ', ' + DES)])
p('C02', 'Vector growth: capacity contract, no needless moves, amortised cost',
  'An append, insertion, resize or reserve whose result fits into the current capacity neither allocates nor changes the capacity nor moves the storage; reserve provides at least the capacity asked for, clear keeps it, shrinking leaves none to spare, and capacity is never below size. A sequence of appends causes only logarithmically many allocations and linearly many element constructions.',
  ['inputs', 'histories', 'configurations'], 'all sizes, spare capacities, reservation sizes and growing operations within the bound',
  'tests check capacity after two or three literal calls and never check which addresses survive or how often memory is requested',
  [VEC], [('growth policy and in-place paths of reserve, insert, resize', VEC)])
p('C03', 'No size request is silently cut down by overflow',
  'For every number of elements a caller can name, over the full range of the size type, an allocation, reserve, resize, assign or counted list insertion either provides that many elements or reports an error; it never reports success with less memory or fewer elements, also if the allocator counts in a smaller type. A refused request leaves size and capacity of the vector unchanged (an assign may leave fewer elements).',
  ['inputs', 'fault_sequences'], 'all 2^64 element counts, element sizes from 1 to 40 bytes',
  'tests never ask for sizes near the overflow boundary; the boundary depends on the element size',
  [AL, VEC, LST], [('allocator::allocate, max_size', AL), ('vector::reserve_nothrow, resize_nothrow, assign_nothrow', VEC)])
p('C04', 'A failed vector operation is reported and leaves a valid, leak-free vector',
  'Whichever allocation, element copy, construction or two-phase initialisation fails during a vector operation, the operation sets the error, and sets it only if something failed. Afterwards the vector is usable, holds only live elements, every element is destroyed exactly once and all memory goes back to the allocator. An argument passed by reference is never changed, and one passed as an rvalue is left intact if there was no memory for it.',
  ['fault_sequences', 'inputs', 'configurations'], 'every operation, every failing step (once or persistently), all small contents and arguments, both exception modes, element types whose copy, move or construction may fail',
  'tests inject a failing first allocation or a failing default copy in a handful of calls; the interesting failures are in the middle of relocations and ranges',
  [VEC, UNI, DES, CO], [('scope guards for partially built storage', DES), ('error propagation after each construct', VEC)])
p('C05', 'Failed vector appends, reserves and insertions do not disturb the elements',
  'For elements whose move cannot fail: if an append, an insertion at the end, a reserve or a shrink reports an error, the vector has exactly the size and values it had before, and a failed reserve or shrink also keeps capacity and addresses. A failed insertion elsewhere leaves all elements before the insertion point in place and unchanged, and a failed resize keeps the original elements it was not asked to drop.',
  ['fault_sequences', 'inputs', 'configurations'], 'every failing step of these operations for all small contents, spare capacities and values',
  'needs a failure at each internal step combined with each spare capacity',
  [VEC, DES, UNI], [('new storage is built completely before it replaces the old', VEC)])
p('C06', 'A list behaves as a sequence under every operation',
  'After any list operation (push/pop/emplace at both ends, insertion of one value, copies or a range, erasure of one element or a range, splice of a list, an element or a range within or between lists, assignment, clear, copy, move, swap) size, order and values equal those of an ideal sequence given the same operation, and returned positions designate the right element. Forward, backward, const and reverse traversal agree with each other step by step, and exactly as many element objects are alive as the size says.',
  ['inputs', 'histories', 'configurations'], 'all small lists, positions, counts, values, both exception modes and both list interfaces',
  'tests use literal lists; link corruption shows only for particular position combinations (adjacent, begin, end)',
  [LST, HL], [('list_node_base hook/unhook/transfer/swap', LST), ('list insert, erase, splice, assign', LST)])
p('C07', 'List sort and merge are correct, stable and move no element',
  'Sorting a list, or merging two ordered lists, under any strict weak order yields an ordered list in which equivalent elements keep their relative order (merge: those of the receiving list first). Every element is present exactly once, unchanged and at its old address; the other list of a merge is left empty, and both lists stay usable. A sort of n elements needs O(n log n) comparisons.',
  ['inputs', 'configurations'], 'all values for lists up to the bound, longer lists with arbitrary values in arbitrary places, three orders including one with equivalent elements',
  'tests sort a couple of literal lists; stability and bin-merge errors need specific lengths and ties',
  [LST], [('list::sort bin merge', LST), ('list::merge', LST)])
p('C08', 'A failed list operation is reported and leaves a valid, leak-free list',
  'Whichever allocation, copy, construction or two-phase initialisation fails during a list operation, the operation sets the error, and only then. Afterwards the list is usable and all its links agree, a failed single insertion leaves the list unchanged, elements that were there before a failed insertion of several are still there in order, and nothing leaks or is destroyed twice.',
  ['fault_sequences', 'inputs', 'configurations'], 'every operation, every failing step (once or persistently), all small lists and arguments',
  'tests hardly inject failures into list operations',
  [LST, CO, DES], [('create_node scope guards', LST), ('range and fill insertion', LST)])
p('C09', 'List elements never move and iterators stay valid',
  'No list operation moves, copies or invalidates an element other than the ones it erases or assigns: iterators and addresses of all others keep designating the same element across insertion, erasure, splice, sort, merge, swap and move. After splice, merge, swap or move the iterators belong to the list that now owns the element.',
  ['histories', 'inputs', 'configurations'], 'all small lists, all operations and arguments, every iterator held across the operation',
  'tests do not keep iterators across operations',
  [LST], [('relinking instead of copying', LST)])
p('C10', 'A set holds exactly its distinct keys, in comparator order',
  'After any history of insertions, erasures, clears, copies and moves a set contains exactly the keys inserted and not erased, each equivalence class once (the first one inserted), and iterates over them in strictly increasing comparator order, forwards and backwards. Insertion reports whether the key was new and designates the stored element; lookup finds a key iff an equivalent one is present, and returns the stored element or the end.',
  ['histories', 'inputs', 'configurations'], 'all keys, three comparators (one with equivalent keys), all operation sequences within the bound, larger trees in several shapes',
  'tests insert a handful of literals; rebalancing cases depend on tree shape and position of the key',
  [SET, RBT], [('insert_and_rebalance', RBT), ('rebalance_for_erase', RBT), ('find / insert unique position', RBT)])
p('C11', 'Set operations need only a logarithmic number of comparisons',
  'For every history of insertions and erasures, in whatever key order, a lookup, insertion or erasure by key in a set of n elements calls the comparator at most proportionally to log2(n), with the constant of a balanced tree (lookup: at most about 2 log2(n+1)).',
  ['histories', 'inputs'], 'ascending, descending, alternating and scattered insertion orders, arbitrary changes afterwards, arbitrary looked-up keys',
  'tests never measure cost; a lost recolouring or rotation leaves results right and only the cost wrong',
  [RBT], [('red-black recolouring and rotations', RBT)])
p('C12', 'A failed set insertion or copy is reported and harmless',
  'If any allocation, copy, construction or two-phase initialisation fails, insertion or copy sets the error, and only then; a failed insertion leaves the set with exactly its previous elements. A failed copy never touches its source, leaves a destination that can be cleared and reused, and nothing leaks or is destroyed twice.',
  ['fault_sequences', 'inputs', 'configurations'], 'every failing step of insertion and copy for all keys and small sets, both modes, several failing element types',
  'tests inject at most one allocation failure into one insertion',
  [SET, RBT, CO], [('create_node guard', RBT), ('tree copy with error propagation', RBT)])
p('C13', 'Set elements never move and iterators stay valid',
  'Insertion and erasure of other keys, move construction and move assignment leave every element of a set at its address, and an iterator taken before still designates the same element and still leads to its neighbours afterwards.',
  ['histories', 'inputs'], 'all small sets, all operations, every iterator held across the operation',
  'tests do not keep iterators; erasure with two children relinks nodes and can confuse them with values',
  [RBT, SET], [('rebalance_for_erase relinks nodes', RBT), ('header move', RBT)])
p('C14', 'Shared ownership: exact counts, each value destroyed with its last owner',
  'For every way shared pointers are copied, moved, swapped, assigned, converted to a base or const, reset or stored inside other shared values, use_count() and unique() equal the actual number of owners. A value is destroyed exactly once, at the moment its last owner goes and never earlier, and its memory goes back to the allocator exactly when the last owner and the last observer are gone. A moved-from or reset pointer is empty.',
  ['histories', 'inputs', 'configurations'], 'all ownership graphs of a few values and pointers including self-assignment, cycles and pointers living inside the values they release, followed by arbitrary operations',
  'tests follow a few straight-line histories; counting errors show only for self-assignment, aliasing or nested release',
  [SP], [('shared_count_base::add_ref / release', SP), ('shared_ptr assignment, move, conversion', SP)])
p('C15', 'Weak pointers observe without owning and never revive a value',
  'A weak pointer is expired exactly when the value has no owner left, its use_count() is the number of owners, and lock() returns a pointer to the observed value if it is alive and an empty pointer otherwise, even during or after destruction of the value. Observers neither keep the value alive nor lose the control block: the block is released exactly when the last owner and the last observer are gone, also when the value owns an observer of itself.',
  ['histories', 'inputs', 'configurations'], 'all graphs as for C14 with observers held by variables and by the values themselves, arbitrary operations on them',
  'tests lock a weak pointer once before and once after reset; block lifetime errors need an observer outliving, or living inside, the value',
  [SP], [('weak_add_ref / weak_release', SP), ('weak_ptr::lock, expired', SP)])
p('C16', 'Making a shared value is all-or-nothing and passes its arguments through',
  'make_shared (with a given or the default allocator) constructs exactly one value from exactly the given arguments, keeping references, constness and rvalues, in memory of the given allocator, and returns its only owner. If allocation, construction or two-phase initialisation fails, the error is set (and only then), the result is empty, no object is left alive and no memory is kept.',
  ['fault_sequences', 'inputs', 'configurations'], 'every failing step, all argument values and forms, both modes, value types with failing copy, move, construction or two-phase initialisation',
  'tests let the first allocation fail for one type; failure of the construction after the allocation is not covered',
  [SP, CO, DES], [('make_shared_a_nothrow guards', SP), ('type_stored_by_value::initialize', SP)])
p('C17', 'Building or assigning one object: exact arguments, no half-made object',
  'class_operations::construct makes exactly one object from exactly the given arguments, keeping references, constness and rvalues, by constructor or, for types copied in two phases, by default construction followed by one initialisation of the fresh object. If a constructor or the initialisation fails, the failure is reported with its cause, no object is left alive and nothing outside the object is written; a failed assign changes neither side.',
  ['fault_sequences', 'inputs', 'configurations'], 'all argument values and categories, every failing step, element types with failing copy, move, construction, assignment or initialisation, both modes',
  'tests build one plain and one two-phase type with fixed arguments and hardly let construction fail after it began',
  [CO, 'nestl/alignment.hpp', 'nestl/has_exceptions/detail', 'nestl/no_exceptions/detail'], [('class_operations::construct / assign and their two-phase branch', CO)])
p('C18', 'Every failure comes back as an error value holding its cause',
  'No operation of the nothrow interface lets an exception escape. The error it sets is the failure that happened: out of memory when memory was refused, a length error when more than max_size() elements were asked for, the error of the initialisation, or the very exception the element threw, with its type and content. An error object is clear until something is put in, keeps it unchanged through copy, assignment and move, is independent of other error objects, and throws that same exception when asked to.',
  ['fault_sequences', 'inputs', 'configurations'], 'all operations of all containers and make_shared, every failing step, arbitrary exceptions thrown by elements, both modes',
  'tests only check that some error is set, and only for a few operations',
  ['nestl/has_exceptions/exception_ptr_error.hpp', 'nestl/no_exceptions/errc_based_error.hpp', 'nestl/default_operation_error.hpp', CO, VEC, LST, SET, SP], [('from_exception_ptr, build_bad_alloc, build_length_error, throw_exception', 'nestl/has_exceptions/exception_ptr_error.hpp'), ('error codes', 'nestl/no_exceptions/errc_based_error.hpp'), ('try/catch in construct', CO)])
p('C19', 'The throwing interface throws exactly the failure, and then nothing changed',
  'push_back, copy construction and assignment of the throwing vector and list throw if and only if something failed, and throw that failure itself. After an exception both operands have exactly the content, addresses and capacity they had before and nothing leaked; otherwise the result equals that of the nothrow operation. Moves never throw and take over the elements in place; self-assignment changes nothing.',
  ['fault_sequences', 'inputs'], 'all operations of the throwing wrappers, all small contents, every failing step',
  'tests of the throwing interface never let anything fail',
  [HV, HL], [('vector wrapper: push_back, copy, operator=', HV), ('list wrapper: push_back, copy, operator=', HL), ('throw_exception', 'nestl/has_exceptions/exception_ptr_error.hpp')])
p('C20', 'Any user-defined error type can be used with every operation',
  'Every fallible operation works with an error type that offers only a test for being set and the documented building functions found by argument-dependent lookup. Each failure is handed to that type through the right function (no memory, more than max_size() elements, an exception), with its cause, and no error appears without a failure.',
  ['fault_sequences', 'configurations', 'inputs'], 'all fallible operations of all containers and make_shared, every failing step',
  'tests use the default error type only',
  [VEC, LST, SET, SP, CO, AL], [('build_bad_alloc / build_length_error / from_exception_ptr by argument-dependent lookup', CO + ', ' + AL)])
p('C21', 'Algorithms and comparisons agree with their definitions and stop at failures',
  'copy and copy_if write exactly the (selected) elements of the source in order and return the end of what they wrote; if assigning an element fails they report it, stop there, and have written exactly the elements before it. equal, lexicographical_compare and comparison of vectors and lists give the result of the mathematical definition for every pair of ranges. None of them reads or writes outside the ranges given.',
  ['inputs', 'fault_sequences'], 'all ranges within the bound, single-pass and other iterators, arbitrary predicates and orders, failure of any element assignment',
  'tests hardly touch the algorithms; wrong results need prefixes, ties or failures in the middle',
  [ALG, VEC, LST], [('copy, copy_if, equal, lexicographical_compare', ALG), ('operator==', VEC + ', ' + LST)])
p('C22', 'Memory comes from and goes back to the right allocator, with its size',
  'A container requests memory only from the allocator it was given, or took over by swap or move, in the form rebound for its nodes; get_allocator() reports that allocator. Every block goes back to the allocator it came from, with the size it was requested with, whatever allocators the other container had. Copies of the allocator kept in containers or shared values are destroyed with them, and a copy made through the throwing interface works with any such pair as well. Allocators that offer only the required members work, and a copied set takes the allocator over only if the allocator asks for that.',
  ['configurations', 'histories', 'inputs'], 'all pairs of small containers with different allocators, all operations between them, several allocator designs',
  'tests use allocators without identity; mixing them up shows only with two distinguishable ones',
  [AT, ATH, AL, VEC, LST, SET, RBT], [('allocator_traits', AT), ('move, copy and swap of allocators', VEC + ', ' + LST + ', ' + RBT)])
p('C23', 'Containers of containers: deep copies, whole elements after any failure',
  'With containers as elements, every operation copies inner containers completely and independently (changing one never shows in another), and moves them without touching their elements. If anything fails at either level, the error is reported with its cause, every inner container still present is complete, a failed append changes nothing, an argument is left as it was, and nothing leaks.',
  ['fault_sequences', 'inputs', 'configurations'], 'all small containers of containers, all operations, every failing allocation or element copy at both levels',
  'tests nest containers once, without failures; an inner failure must be undone at two levels',
  [VEC, LST, CO, HV, HL], [('two_phase_initializator for containers', VEC + ', ' + LST), ('construct in two phases', CO)])
p('C24', 'Every element lives at an address aligned for its type',
  'Elements of vectors, lists, sets and shared values, and temporaries made while inserting, are always constructed at addresses aligned for their type, provided the allocator returns memory aligned for the type it was rebound to.',
  ['inputs', 'configurations'], 'element types with alignment above the default, all operations, all stack positions and positions within the memory handed out',
  'tests use types whose alignment any address satisfies by luck',
  ['nestl/alignment.hpp', VEC, LST, RBT, SP], [('aligned_buffer', 'nestl/alignment.hpp')])
p('C25', 'Arguments may live inside the container they are given to',
  'Appending, inserting, assigning or resizing with a reference to an element of the same container (vector: also a range of its own elements), appending, inserting or resizing with a reference to an object that an element owns, erasing a set element by a reference to its own key, and copying or swapping a container with itself have the outcome they would have if the argument had been copied before the call. This holds with and without reallocation, and a failure is reported and leaves the container usable.',
  ['inputs', 'histories', 'fault_sequences'], 'all small contents, spare capacities, positions and own elements, every failing step',
  'tests never pass an own element; the dangling reference appears only when the call reallocates or shifts',
  [VEC, LST, SET, RBT], [('insert_value, assign_nothrow, resize_nothrow', VEC), ('list assign and self copy', LST), ('erase by key', RBT)])
p('C26', 'What a container is given reaches the new element exactly as given',
  'Appending, inserting and constructing in place hand their arguments on unchanged in number, order, constness, identity and value category, to the constructor or to the two-phase initialisation: lvalues are copied and stay as they were, rvalues are moved and never copied, also when they come from a range of rvalues or through the throwing interface. A set consumes an rvalue only if it inserts it. Lists and sets work with elements that can only be moved.',
  ['inputs', 'configurations'], 'all forms of arguments, positions, sizes, spare capacities and values, plain, two-phase and move-only elements, both interfaces and modes',
  'tests pass literals whose copies cannot be told from the original; a lost rvalue or reference still gives equal values',
  [VEC, LST, SET, RBT, CO, HV, HL], [('emplace, insert and push functions', VEC + ', ' + LST + ', ' + SET), ('construct', CO), ('throwing push_back', HV + ', ' + HL)])
p('C27', 'The ordered tree: equal keys, hints, ranges and bounds',
  'The ordered tree that carries the set (impl::detail::rb_tree, which also holds values that contain their key) behaves as a sorted sequence. An insertion of unique keys (of a value, in place, with any hint, of a range) adds a value at its place exactly if no equal key is present, and otherwise returns an element with that key; an insertion that admits equal keys puts the value after those equal to it, or as near to the hint as order permits. Erasing by iterator, range, key or keys removes exactly those elements. lower_bound, upper_bound, equal_range, count and find, const or not, agree with the sequence; trees compare lexicographically; no other element moves. A failed insertion is reported, returns end() and changes nothing.',
  ['inputs', 'histories', 'fault_sequences'], 'all small trees with equal keys in both orders, all operations, keys, hints and ranges, every failing step',
  'no test uses the tree but through insertion and lookup of distinct keys; a wrong hint or bound shows for few shapes',
  [RBT, ALG], [('m_emplace_equal / m_emplace_hint_* / m_insert_unique_at', RBT), ('m_get_insert_hint_*_pos', RBT), ('lower_bound / upper_bound / equal_range / erase', RBT)])

def main():
    ids = [x['id'] for x in P]
    assert len(set(ids)) == len(ids)
    for x in P: assert len(x['title']) <= 80, x['title']
    missing = set(CHECKS) - set(ids)
    assert not missing, missing
    claimed = [x for x in P if x['id'] in CHECKS]
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
    note = ('Bounded: for every value of the symbolic inputs within the bounds in evidence/%s.json (coverage.bounds_text, coverage.bounds) the solver decided every assertion and every memory access on every feasible path; '
            'nothing is claimed beyond the bounds. Trusts clang/opt, the engine in engine/, libz3; sample paths and every counterexample are re-run natively with g++ and sanitizers.')
    m = dict(version=1, setup_cmd='bash engine/build.sh',
             checks=[dict(property=x['id'], quick_cmd='python3 check.py %s quick' % x['id'], thorough_cmd='python3 check.py %s thorough' % x['id'],
                          technique='symbolic execution of the real code (LLVM bitcode) with an SMT solver (z3, bit-vectors), all paths within bounds', level='model_checking', level_note=note % x['id']) for x in claimed],
             not_applicable=[dict(property=x['id'], reason=NA[x['id']]) for x in P if x['id'] not in CHECKS],
             notes='No hooks in /repo: the checks only use public interfaces. See DESIGN.md.')
    json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False); open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
NA = {}
if __name__ == '__main__': main()
