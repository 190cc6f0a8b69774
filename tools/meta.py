#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {'files': ['include/cest/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'include/cest/' + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'include/cest/' + w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


IP = ['inputs', 'programs', 'histories']
p('V01', 'vector: element lifetime and storage discipline',
  'In every vector operation each element is constructed exactly once before it is used and destroyed exactly once, and nothing outside live elements is read, assigned or destroyed. '
  'Every block obtained from the allocator is given back exactly once with the size it was requested with, and slots between size() and capacity() hold no element. '
  'Operations that need more room obtain it before they use it.',
  IP, 'every element type, every size and capacity, every operand position, every legal history of operations (each operation analysed from an arbitrary valid vector)',
  'tests use a handful of sizes and mostly int elements, for which a missing constructor or destructor call is invisible; reallocation boundaries are sampled at one or two sizes',
  ['vector.hpp'], [('reserve/resize/push_back grow path', 'vector.hpp: reserve, resize, push_back'), ('clear, destructor', 'vector.hpp: clear, ~vector'), ('assignment', 'vector.hpp: operator=')],
  [('elements, size, capacity', 'storage owned through the allocator', 'vector.hpp: data members')],
  ['allocator calls and element special members'])
p('V02', 'vector: every operation yields the specified sequence',
  'After each vector operation the sequence of elements is exactly what the operation specifies as a function of the sequences before it, including when an argument refers into the same vector, and const and non-const accessors, iterators and reverse iterators designate the same elements. '
  'at() throws for exactly the positions not below size(), and equality holds exactly when sizes and all elements are equal. '
  'Storage moves only when an operation needs more than the current capacity, and capacity never shrinks below size. Elements given as rvalues are moved in, not copied.',
  IP, 'every size, capacity, position, operand aliasing and element type', 'tests sample small literal vectors; aliasing arguments, empty ranges, size==capacity and one-past positions are hardly reached',
  ['vector.hpp'], [('push_back/resize/erase/assignment/swap', 'vector.hpp'), ('at range check', 'vector.hpp: at'), ('operator==', 'vector.hpp: operator==')], (), ['the public interface of vector'])
p('S01', 'string: storage, terminator and bounds',
  'After every string operation the characters are stored with a terminating null at position size(), capacity() characters plus the terminator fit in the storage, and no operation reads or writes outside the storage of its operands. '
  'Every block obtained is released exactly once with the size it was requested with.',
  IP, 'every length, capacity, content (embedded nulls included), operand overlap', 'tests use short literals; overruns of one character and wrong deallocation sizes do not fail at run time',
  ['string.hpp'], [('constructors, assign, append, push_back, reserve', 'string.hpp')], [('characters, size, capacity', 'storage', 'string.hpp: data members')], ['storage reachable through data()/c_str()'])
p('S02', 'string: contents and queries are the specified function of the operands',
  'The contents after construction, assignment, append, concatenation, clear, resize-like growth and iterator access are exactly those the operation specifies, for every content including embedded nulls and arguments that refer into the same string. '
  'find returns the least matching position not below the start position or npos, and comparison is equality of length and of every character.',
  IP, 'every content, length, count and position, including empty strings, npos and embedded nulls', 'tests compare a few literals; searches that fail near the end, empty needles, partial matches and self-append are not sampled',
  ['string.hpp'], [('find overloads', 'string.hpp: find'), ('append/assign/operator+', 'string.hpp'), ('operator==', 'string.hpp: operator==')], (), ['the public interface of string'])
p('D01', 'deque: element lifetime and chunk storage',
  'In every deque operation each element is constructed once before use and destroyed once, and no slot outside an allocated block is touched, whatever mixture of pushes and pops at both ends led there. '
  'Each block is released exactly once, and after the deque is emptied it remains usable.',
  IP, 'every number of blocks, every front and back position within a block, every history of operations at both ends',
  'blocks hold 1024 elements, so tests cross a block border in very few places; a stale or missing block is silent for int',
  ['deque.hpp'], [('growth at both ends', 'deque.hpp: push_front_helper, push_back_helper'), ('clear/pop', 'deque.hpp: clear, pop_front, pop_back')],
  [('front/back offsets and block indices, block table', 'position of the sequence in the blocks', 'deque.hpp: data members')], ['allocator calls and element special members'])
p('D02', 'deque: contents, indexing and iteration across blocks',
  'A deque behaves as the double-ended sequence of its pushes and pops: size, empty, front, back and indexing agree with it, and begin..end visits every element once in order, forwards and backwards. '
  'The difference of two iterators is the difference of their positions, const and non-const access agree, and copies and assignments produce equal independent sequences. Elements given as rvalues are moved in, not copied.',
  IP, 'every size, every position relative to block borders, every history of operations at both ends',
  'tests hold few elements, so the arithmetic at block borders (full last block, empty deque, front at a border) is sampled at a few points',
  ['deque.hpp'], [('index arithmetic', 'deque.hpp: operator[]'), ('iterator increment, decrement, difference', 'deque.hpp: iter, const_iter'), ('begin/end', 'deque.hpp: begin, end, end_chunk')], (), ['the public interface of deque'])
p('L01', 'list: doubly linked sequence, node lifetime and iterators',
  'After every list operation forward and backward traversal visit the same elements in opposite orders, size() is their number, and the elements are those the operation specifies, with insert placing the element before the given position and erase removing exactly it. '
  'Every node is allocated once, its element constructed once and destroyed once, and released once; operations do not disturb other nodes, so other iterators stay valid. Elements given as rvalues are moved in, not copied.',
  IP, 'every length, every position (first, middle, last, end, empty list), every element type', 'tests check forward order of small lists; broken back links, leaks and counter drift are not observed',
  ['list.hpp'], [('insert/emplace linking', 'list.hpp: insert, emplace'), ('erase unlinking', 'list.hpp: erase, m_unhook'), ('clear/copy', 'list.hpp: clear, list(const list&), operator=')],
  [('sentinel, next, prev, size', 'circular links', 'list.hpp: node_base')], ['the public interface of list'])
p('F01', 'forward_list: singly linked sequence and node lifetime',
  'After every forward_list operation traversal from begin to end visits exactly the elements the operation specifies; insertion and erasure after a position affect only the named elements, and copies are independent. '
  'Every node is allocated once, its element constructed once and destroyed once, and released once; elements given as rvalues are moved in, not copied.',
  IP, 'every length, every position and range, every element type', 'tests use short lists of int; leaks, double releases and range ends are not observed',
  ['forward_list.hpp'], [('insert_after, erase_after', 'forward_list.hpp'), ('copy, assignment by swap', 'forward_list.hpp')], [('first node, next', 'links', 'forward_list.hpp: node_base')], ['the public interface of forward_list'])
p('T01', 'set and map: ordered unique keys, insert and lookup',
  'Keys of a set or map are unique and visited in strictly increasing order of its comparison; insert adds the value exactly when no equivalent key is present and returns the position of the equivalent element and whether it was added. '
  'find returns the element with an equivalent key, or end exactly when there is none, and size is the number of elements.',
  IP, 'every tree shape, every key and every strict weak order, every history of inserts', 'tests insert a few integers; most tree shapes, rebalancing cases and comparison functions are not reached',
  ['set.hpp', 'map.hpp'], [('insertion', 'set.hpp: insert; map.hpp: insert'), ('lookup', 'set.hpp: find; map.hpp: find')], [('tree nodes, first node, size', 'binary search tree', 'set.hpp: node')], ['the public interface of set and map'])
p('T02', 'set and map: the tree stays balanced and linked',
  'After every insertion the tree is a red-black tree: no red node has a red child, every path has the same number of black nodes and the root is black, so lookup and insertion take logarithmically many steps. '
  'Parent, child and first-element links are mutually consistent after every rotation.',
  IP, 'every tree shape and insertion position', 'tests look at contents, never at the shape; an unbalanced tree or a stale parent link shows only in deep trees or later iteration',
  ['set.hpp', 'map.hpp'], [('recolouring and rotations', 'set.hpp: insert, rotate_left, rotate_right; map.hpp: the same')], [('colour, left, right, parent', 'tree links', 'set.hpp: node')], ['iteration and depth of the recursion'])
p('T03', 'set and map: iteration visits every element once in order',
  'Incrementing an iterator of a set or map moves from an element to its successor in key order, and to end from the last, so begin..end visits every element exactly once; post-increment returns the old position. '
  'begin designates the least element, iterators compare equal exactly when they designate the same element, and iterators stay valid under insertion.',
  IP, 'every tree shape and every element position', 'tests iterate over small trees', ['set.hpp', 'map.hpp'],
  [('successor', 'set.hpp: const_tree_iter::operator++; map.hpp: tree_iter, const_tree_iter'), ('begin/end', 'set.hpp; map.hpp')], (), ['iteration'])
p('T04', 'set and map: node lifetime, clear and copies',
  'Every node of a set or map is allocated once, its element constructed once and destroyed once, and released once, through insertion, clearing, copy, assignment and destruction; a rejected insertion allocates nothing. '
  'Copy and assignment (also to itself) produce a container with the same elements that is independent of the source, and a cleared container is empty and usable.',
  IP, 'every size and shape, self-assignment, assignment over non-empty containers', 'leaks and double releases are not observed by the tests for int keys',
  ['set.hpp', 'map.hpp'], [('clear, copy, assignment, destructor', 'set.hpp; map.hpp')], (), ['allocator calls and element special members'])
p('U01', 'unique_ptr: exactly one owner deletes',
  'At any time a pointee given to a unique_ptr has exactly one owner, and it is deleted exactly once, when its owner is destroyed or reset while still owning it. '
  'release gives up ownership without deleting, moving transfers it and leaves the construction source empty (moving an owner to itself changes nothing), and comparisons and boolean tests are those of the addresses. '
  'While reset destroys the former pointee the owner already holds the new one, and make_unique passes its arguments on as they are, rvalues as rvalues.',
  ['inputs', 'programs', 'histories'], 'every pointee type, null and non-null, every sequence of moves, resets and releases', 'tests check values only; double deletes and leaks are not observed',
  ['memory.hpp'], [('destructor, reset, release, move', 'memory.hpp: unique_ptr')], [('owned pointer', 'ownership', 'memory.hpp: unique_ptr')], ['pointee destructor and deallocation'])
p('H01', 'shared_ptr: the count equals the owners and the last one deletes',
  'use_count() equals the number of shared_ptr objects that share ownership after every construction, copy, aliasing construction, assignment (also to itself) and destruction, and is 0 for an empty pointer. '
  'The pointee is disposed of exactly once, by the deleter given or as an object of the type it was given as, when the last owner goes, and the bookkeeping is released exactly then.',
  ['inputs', 'programs', 'histories'], 'every number of owners, every history of copies and assignments, null and custom deleters', 'tests check one or two owners; leaks, double deletes and wrong deleters are not observed',
  ['shared_ptr.hpp'], [('copy, assignment, destructor', 'shared_ptr.hpp: shared_ptr_base'), ('deleter dispatch', 'shared_ptr.hpp: ctrl_derived')], [('reference count', 'owners', 'shared_ptr.hpp: ctrl')], ['deleter calls, use_count'])
p('N01', 'function: a call forwards its arguments and result exactly once',
  'Calling a function object calls the stored callable exactly once with the given arguments, in order and unchanged (references refer to the caller\'s objects), and returns its result. '
  'The stored callable is copied from the one given (const or not), or moved from an rvalue, lives as long as the function object and is destroyed exactly once; functions are stored as pointers to them. An argument taken by value is moved on, not copied again.',
  ['inputs', 'programs'], 'every callable, signature and argument', 'tests call a few lambdas with ints; identity of references, copies and destruction are not observed',
  ['functional.hpp'], [('call', 'functional.hpp: function::operator(), impl_f::operator()'), ('construction', 'functional.hpp: function')], (), ['calls of the stored callable'])
p('Q01', 'queue: first in, first out',
  'A queue holds the elements pushed and not yet popped in the order they were pushed: front is the oldest, back the newest, pop removes the oldest, and size and empty agree with that sequence. '
  'Construction from a container takes over exactly its elements; elements and containers given as rvalues are moved in, not copied.',
  ['inputs', 'programs', 'histories'], 'every underlying container that satisfies its interface, every history of pushes and pops', 'tests push a few ints', ['queue.hpp'],
  [('delegation to the container', 'queue.hpp')], (), ['the public interface of queue'])
p('A01', 'n-ary swap rotates its arguments',
  'Swapping n variables moves the value of each into its left neighbour and the first value into the last; the reverse form moves each into its right neighbour and the last into the first. '
  'Each value is moved, none is lost or duplicated, and for no or one argument nothing changes.',
  ['inputs', 'programs'], 'every number of arguments instantiated, every value type', 'tests swap small integers of a few arities', ['swap.hpp'], [('fold', 'swap.hpp: swap, swapr')], (), ['the variables after the call'])
p('I01', 'input streams: characters, counts and state bits',
  'Reading from a string stream delivers the characters of its string in order, each once, and never touches memory outside the string or beyond the caller\'s count; the count reported is the number delivered by the last operation. '
  'End-of-file and fail bits are set exactly when a read could not deliver everything asked for, no character is extracted from a stream that is not good, and putting back steps back one character or sets the bad bit at the beginning. '
  'This is so for a stream buffer of the user\'s as well, however it divides the characters; one that throws marks the stream bad. An operation throws exactly when it ends in a state the exception mask asks for, with its other effects in place, and giving a string stream a new string restarts the reading without touching the state.',
  ['inputs', 'programs', 'histories'], 'every string, every read size, every position, every prior stream state and exception mask, every division of the characters into pieces (up to three)', 'tests read a few characters from short strings',
  ['istream.hpp', 'streambuf.hpp', 'sstream.hpp', 'basic_ios.hpp', 'cstdio.hpp'], [('get/read/unget', 'istream.hpp'), ('get area', 'streambuf.hpp: sbumpc, sgetc, xsgetn, sungetc'), ('initialisation', 'sstream.hpp: _M_stringbuf_init, _M_sync'), ('state bits', 'basic_ios.hpp: clear, setstate')],
  [('get area pointers, stream state, count', 'position in the string', 'streambuf.hpp; basic_ios.hpp; istream.hpp')], ['get, read, unget, gcount, state queries, fread'])
p('O01', 'output goes once, unchanged, to the matching standard stream',
  'At run time a value written to cest\'s cout, cerr or clog is written exactly once, unchanged and in order, to the standard stream of the same name and to no other, and writing to any other stream writes to none of them. '
  'Every insertion returns the stream it was applied to, and string output passes exactly the string\'s characters. A manipulator of the user\'s is applied exactly once, to the stream it was inserted into; flushing asks the stream\'s buffer once, and a buffer that fails or throws marks the stream bad and changes no other state.',
  ['inputs', 'programs'], 'every value of every supported type and every stream object', 'the tests do not capture the streams: output is never compared', ['ostream.hpp', 'runtime_ostream.hpp', 'string.hpp', 'memory.hpp', 'shared_ptr.hpp', 'complex.hpp', 'cstdio.hpp'],
  [('routing', 'runtime_ostream.hpp: runtime_ostream'), ('insertion operators', 'ostream.hpp; string.hpp')], (), ['calls of the standard streams'])
p('K01', 'every operation can be evaluated at compile time',
  'Every public operation of the library\'s containers, strings, smart pointers, streams and functions can be used in constant expressions: it is declared constexpr and everything it calls on some path available during constant evaluation is constexpr too.',
  ['programs', 'configurations'], 'every public function and member of every header, every code path that constant evaluation can take', 'tests evaluate selected calls in static_assert; a missing constexpr on an untested member or path compiles silently in templates',
  ['vector.hpp', 'string.hpp', 'deque.hpp', 'list.hpp', 'forward_list.hpp', 'set.hpp', 'map.hpp', 'memory.hpp', 'shared_ptr.hpp', 'functional.hpp', 'queue.hpp', 'swap.hpp', 'istream.hpp', 'ostream.hpp', 'streambuf.hpp', 'sstream.hpp', 'cstdio.hpp', 'cctype.hpp', 'complex.hpp', 'cmath.hpp'],
  [('constexpr declarations', '(all headers)')], (), ['constant evaluation'])
p('P01', 'stream flags, modes and states are bitmasks',
  'For formatting flags, open modes and stream states the operators |, &, ^ and ~ work bit by bit on every value, and their compound forms change the left operand to that result and return it. '
  'The named values are distinct single bits (goodbit is none), adjustfield, basefield and floatfield are exactly the unions of their flags, and a new stream has the flags skipws and dec. '
  'dec, hex and oct return the stream they are given.',
  ['inputs'], 'every pair of values of the three types', 'tests combine two or three flags; a wrong bit or a shared one shows only for particular combinations', ['ios_base.hpp', 'basic_ios.hpp'],
  [('bitmask operators', 'ios_base.hpp: operator|, operator&, operator^, operator~ and compound forms'), ('initial state', 'ios_base.hpp: _M_init; basic_ios.hpp: init')], (), ['results of the operators, flags()'])
p('K02', 'compile-time and run-time evaluation agree',
  'An operation evaluated at compile time has the same effects on its operands and the same results as at run time; the only difference allowed is that output to the standard streams is skipped, and reports no characters written. '
  'Both evaluations obey the same specification for containers, strings, pointers, streams and functions.',
  ['programs', 'configurations'], 'every operation whose code distinguishes the two kinds of evaluation', 'each test runs both ways on a few values', ['runtime_ostream.hpp', 'cstdio.hpp', 'memory.hpp', 'shared_ptr.hpp', 'cmath.hpp', 'string.hpp'],
  [('std::is_constant_evaluated branches', 'runtime_ostream.hpp; cstdio.hpp; memory.hpp; shared_ptr.hpp')], (), ['effects outside the standard streams'])
p('X01', 'headers stand alone, combine freely and link',
  'Every header compiles when included alone, first, twice or in any order with the others, and can be included in several translation units of one program without duplicate definitions. '
  'Every namespace-scope function and variable defined in a header is therefore inline, constexpr, a template or of internal linkage.',
  ['programs', 'configurations'], 'every header, every order of inclusion of two headers, every number of translation units', 'each test includes a few headers in a fixed order in one translation unit', ['vector.hpp', 'iostream.hpp', 'cstdio.hpp', 'complex.hpp', 'cmath.hpp'],
  [('include directives, include guards, inline definitions', '(all headers)')], (), ['compilation and linking'])
p('X02', 'read-only access cannot modify',
  'Through a const container, string, stream or iterator-to-const no element or bookkeeping can be modified: const accessors yield const references and pointers, const iterators cannot be turned into mutable ones, and no const operation writes to its object. '
  'Mutable objects give mutable access where specified.',
  ['programs'], 'every program that uses the objects through const access', 'no test checks that misuse is rejected', ['vector.hpp', 'string.hpp', 'deque.hpp', 'list.hpp', 'forward_list.hpp', 'set.hpp', 'map.hpp', 'queue.hpp'],
  [('const overloads and const_iterator types', '(all containers)')], (), ['types of accessors; writes of const member functions'])
p('G01', 'iterators obey the iterator protocol',
  'For every iterator type: pre-increment and pre-decrement return the iterator itself moved by one, post-forms return the previous position and move by one, decrementing undoes incrementing, and arrow and star designate the same element. '
  'Equality holds exactly between iterators to the same position and conversion to the const iterator keeps the position. An iterator has the operations of the category it claims.',
  ['inputs', 'programs'], 'every iterator type of every container, every position', 'generic algorithms exercise only some operators on some types', ['list.hpp', 'forward_list.hpp', 'deque.hpp', 'set.hpp', 'map.hpp'],
  [('iterator operators', 'list.hpp: iter, const_iter; forward_list.hpp; deque.hpp; set.hpp; map.hpp')], (), ['iterator operators'])
p('C01', 'complex: arithmetic identities',
  'Sum, difference, product, quotient, negation, conjugate and norm of complex numbers (and their mixed forms with reals) have as real and imaginary parts exactly the specified polynomial or rational expressions of the operands\' parts. '
  'Compound assignments agree with the binary operators, equality compares both parts, and operands other than the target are unchanged.',
  ['inputs'], 'every value of the operands, as expressions over the reals', 'tests evaluate a few integer points; sign errors that cancel there pass', ['complex.hpp'],
  [('operators', 'complex.hpp: operator+=, -=, *=, /=, binary operators'), ('accessors', 'complex.hpp: real, imag, conj, norm')], (), ['real and imaginary parts'])
p('C02', 'complex: functions are the right combinations of the real ones',
  'The functions of complex numbers (exp, log, log10, sin, cos, tan, sinh, cosh, tanh, arg, abs, polar, sqrt and the powers) are the textbook combinations of the library\'s real functions applied to the parts: '
  'exp(x+iy) = exp(x)(cos y + i sin y), the square of abs is the norm, the square of sqrt(z) is z, an integer power is the repeated product (or its reciprocal), and other powers are exp(y log x).',
  ['inputs'], 'every value of the operands, as expressions over the reals, on every path', 'tests evaluate a point or two with a loose tolerance, or never instantiate the function', ['complex.hpp'],
  [('functions', 'complex.hpp: polar, abs, arg, cos, cosh, exp, log, log10, pow, sin, sinh, sqrt, tan, tanh')], (), ['real and imaginary parts'])
p('M03', 'character classification is exact',
  'isupper is non-zero exactly for A to Z and isalnum exactly for 0 to 9, A to Z and a to z, for every int argument a caller may pass.',
  ['inputs'], 'every int value', 'tests sample a few characters', ['cctype.hpp'], [('membership tables', 'cctype.hpp')], (), ['results'])
p('M04', 'elementary functions: exact results and identities',
  'floor and ceil return, for every argument whose result is an int, the greatest integer not above and the least not below it; abs and fabs return the magnitude, and pow with an integer exponent is the repeated product, or its reciprocal for a negative exponent. '
  'As expressions over the reals cos is the sine of the complement, cosh is the root of one plus the square of sinh, sinh and atan are odd, atan2 is the angle of the right quadrant for every combination of signs and zeros, and log is minus infinity at zero and not a number below.',
  ['inputs'], 'every argument, every combination of signs, every exponent', 'tests evaluate abs, atan and sqrt at a point each', ['cmath.hpp'],
  [('rounding', 'cmath.hpp: floor, ceil'), ('power', 'cmath.hpp: pow'), ('identities', 'cmath.hpp: cos, cosh, sinh, atan, atan2, log; bits/abs.hpp: abs, fabs')], (), ['results'])
p('B01', 'user-supplied customisation points are the ones used',
  'Containers order keys only with the comparison they were given, compare elements only with their equality, obtain and release storage only through their allocator, strings compare, search and measure characters only with the character traits given, and shared_ptr disposes only through the deleter given; an allocator passed to a constructor is the one used. '
  'No operation requires of the element type more than its documented operations.',
  ['programs'], 'every comparison, allocator, deleter and element type', 'tests use the defaults, for which < on the key and the comparison coincide', ['set.hpp', 'map.hpp', 'vector.hpp', 'string.hpp', 'deque.hpp', 'list.hpp', 'forward_list.hpp', 'shared_ptr.hpp'],
  [('uses of m_comp, the allocators, the deleter', 'set.hpp; map.hpp; vector.hpp; deque.hpp; list.hpp; forward_list.hpp; shared_ptr.hpp')], (), ['calls of the customisation points'])
p('M01', 'math functions approximate their mathematical counterparts',
  'sqrt, sin, cos, exp, log, pow and the other elementary functions return the mathematical value to within a small error over their whole domain, and the transcendental functions of complex numbers likewise.',
  ['inputs'], 'every finite argument', 'tests compare a few points', ['cmath.hpp', 'complex.hpp'], [('series and iterations', 'cmath.hpp')], (), ['results'])
p('M02', 'math functions terminate for every argument',
  'Every elementary math function returns for every floating-point argument, including zero, negative, infinite and not-a-number arguments.',
  ['inputs'], 'every double', 'tests pass ordinary positive values', ['cmath.hpp'], [('recursions', 'cmath.hpp')], (), ['termination'])
p('E01', 'operations are exception safe',
  'When an element operation, a comparison or an allocation throws, no memory is leaked, no element is destroyed twice and every container stays valid.',
  ['fault_sequences'], 'every point at which an element operation or allocation can throw', 'tests never throw', ['vector.hpp', 'deque.hpp', 'list.hpp', 'forward_list.hpp', 'set.hpp', 'map.hpp', 'string.hpp'], [('(none: no handlers)', '(all containers)')], (), ['allocator calls and element special members'])

NA = {
    'M01': 'accuracy bounds rounding and truncation error of floating-point series over the whole domain: a runtime quantity no static argument in reach bounds for these recursions',
    'M02': 'termination of the Newton and range-reduction recursions depends on when iterated floating-point values reach a fixed point; no ranking argument over the source alone settles it (arguments for which they recurse forever are described in DESIGN.md)',
    'E01': 'the library does not attempt it (operations modify bookkeeping before element operations that may throw, in every container), so the property does not hold of the design; see DESIGN.md. The checks analyse operations whose element operations do not throw',
}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    checks, na = [], []
    for x in P:
        i = x['id']
        if i in registry.PROPS:
            r = registry.PROPS[i]
            checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                           'technique': r.get('technique', registry.TN), 'level': r.get('level', 'proof'),
                           'level_note': r.get('note', registry.NOTE)})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
    m = {'version': 1, 'setup_cmd': 'make -s -C tools', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
