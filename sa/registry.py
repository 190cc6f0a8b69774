import os
import sys
import traceback
from . import ir, spec
from .spec import Checker, finish
from .state import Lost

TB = ['clang 18 front end and -O1 -disable-llvm-passes lowering, LLVM always-inliner/SROA/loop-simplify',
      'the abstract interpreter in /verif/sa and its models of the C library and of opaque elements']
TN = 'abstract interpretation of LLVM IR: polyhedra x segmented arrays x element typestate, trace partitioning, inductive loop summaries'

NOTE = ('Every obligation listed in the evidence file is decided by abstract interpretation of the LLVM IR that clang generates from the current headers: '
        'the argument covers all sizes, positions and contents in the abstract initial states at once, without unrolling. Obligations the domains cannot settle are listed as undecided, not as holding. '
        'Trusts clang\'s lowering, the models of the C library and opaque elements, and assumes element operations do not throw.')

TA = 'queries over the type-checked program (clang AST and control flow graphs)'
NOTEA = ('Every obligation is decided by a query over the AST clang builds from the current headers, fully instantiated by the harness translation units; nothing is executed. '
         'Trusts clang\'s semantic analysis and that the instantiations in /verif/harness are representative of every instantiation.')

PROPS = {
    'X01': dict(run='hdr', min=400, technique='type checking of every header alone and in combination; queries over the AST and the emitted symbols', note=NOTEA, rule='every header type-checks alone (with everything it provides instantiated), twice, before and after all others; every definition in a header is inline, constexpr, a template or internal; every library symbol the harness uses is defined by the headers'),
    'X02': dict(run='cst', min=400, technique='compile-time witnesses over the public types; abstract interpretation of the read-only operations with everything that existed before frozen', note=NOTE, rule='const access yields const references, iterators and pointers only, never convertible to mutable ones, and no modifying operation is callable; no read-only operation writes to, or releases, an object that existed before the call'),
    'K01': dict(run='ctx', min=800, technique=TA, note=NOTEA, rule='every public function is constexpr, everything a constexpr function calls on paths available to constant evaluation is constexpr, no construct barred from constant evaluation is on such a path, every class instantiated with literal types is literal'),
    'G01': dict(run='itp', tags=('val', 'ub', 'it', 'life', 'link', 'first', 'ord', 'rb', 'inv'), min=400, technique='compile-time witnesses over the iterator types; ' + TN, note=NOTE, rule='pre-forms return the iterator itself moved by one, post-forms the old position; decrement undoes increment; star and arrow designate the same element; equality is identity of the position; conversion keeps it'),
    'B01': dict(run='arc', tags=('val', 'ub', 'life'), min=420, technique='compile-time witnesses over minimal element types; reachability in the call graph of the intermediate representation; ' + TN, note=NOTE, rule='every operation compiles for element types that provide only what it is documented to need; no call of the global allocation functions or of the elements\' own comparison is reachable from a container given an allocator and an order; the pointee is disposed of by the deleter given'),
    'K02': dict(run='cev', tags=('val', 'ub'), min=770, technique='comparison of the two lowerings of every operation (evaluated at run time / at compile time); ' + TN, note=NOTE, rule='the code an operation reaches is the same, instruction for instruction, in both evaluations; where it is not, the compile-time lowering satisfies the same specification, with nothing written to the standard streams'),
    'V01': dict(run='vec', tags=('ub', 'life'), min=140, rule='every element constructed exactly once before use and destroyed exactly once; every allocation released exactly once with its size; no access outside live elements'),
    'V02': dict(run='vec', tags=('ub', 'val'), min=290, rule='the sequence after each operation equals the specified function of the sequence before; exact throw condition of at()'),
    'S01': dict(run='str', tags=('ub', 'life'), min=200, rule='storage of capacity+1 characters, terminator at size, every access within storage, every allocation released exactly once with its size'),
    'S02': dict(run='str', tags=('ub', 'val'), min=200, rule='contents after each operation and results of find/compare/operators equal the specified function of the operands'),
    'H01': dict(run='sptr', tags=('ub', 'life', 'val'), min=100, rule='use_count equals the number of owners after every operation; the pointee is disposed of exactly once, by the given deleter, and the bookkeeping released, when the last owner goes'),
    'N01': dict(run='fun', tags=('ub', 'life', 'val'), min=100, rule='a call of the function object is exactly one call of the stored callable with the same values and the same referenced objects, its result is returned, and the callable is destroyed once'),
    'A01': dict(run='swp', tags=('ub', 'life', 'val'), min=30, rule='for every arity instantiated, after the call variable i holds the former value of variable i+1 (swap) or i-1 (swapr), cyclically, and no temporary survives'),
    'Q01': dict(run='que', tags=('ub', 'life', 'val'), min=20, rule='over an arbitrary container with sequence semantics, every queue operation has the specified effect on the sequence: push appends, pop removes the first, front/back/size/empty agree'),
    'L01': dict(run='lst', tags=('ub', 'life', 'val'), min=200, rule='after every operation the nodes form one circular doubly linked chain holding exactly the specified elements in order (forwards and backwards), existing nodes keep their identity, and every allocated node is in it'),
    'F01': dict(run='lst', tags=('ub', 'life', 'val'), min=200, rule='after every operation the nodes form one null-terminated chain holding exactly the specified elements in order, existing nodes keep their identity, and every allocated node is in it'),
    'D01': dict(run='deq', tags=('ub', 'life', 'inv'), min=200, rule='chunks allocated and released once with their size, elements constructed and destroyed once, every access inside a chunk, representation invariant kept by every operation'),
    'D02': dict(run='deq', tags=('ub', 'val', 'inv'), min=200, rule='every operation yields the specified sequence; indexing, iteration and iterator differences agree with positions'),
    'I01': dict(run='sst', tags=('ub', 'life', 'val'), min=300, rule='for every string, position, prior state and requested count: the characters delivered, the count, the state bits and the position afterwards are exactly the specified ones; the storage is released with the stream'),
    'O01': dict(run='out', tags=('ub', 'life', 'val'), min=120, rule='the calls of the standard streams an insertion makes are exactly one write of the same value to the standard stream of the same name, and none for other streams; the stream is returned'),
    'P01': dict(run='bit', tags=('ub', 'val'), min=1500, rule='every bit of the result of an operator depends on the bits at its place as the operator says (a truth table per bit for all values at once, and given values); compound forms change and return the left operand; named values are single distinct bits, groups their unions'),
    'C01': dict(run='cpx', tags=('ub', 'val'), min=40, rule='each part of the result equals, as a rational function of the operands over the reals, the specified expression; comparisons compare both parts'),
    'C02': dict(run='cpf', tags=('ub', 'val'), min=60, rule='each part of the result equals, over the reals and on every path, the textbook combination of the real functions (atoms), with sqrt(x)^2=x and the sign facts of the path as the only further equations'),
    'M03': dict(run='cct', tags=('ub', 'life', 'val'), min=4, rule='for every int argument the result is non-zero exactly when the argument is in the specified ranges'),
    'M04': dict(run='cmt', tags=('ub', 'life', 'val'), min=30, rule='floor and ceil are the neighbouring integers for every argument k + fraction; integer powers are repeated products; abs, atan2, cos, cosh, sinh, atan and log satisfy their exact identities as expressions over the reals, other functions taken as what they are called'),
    'T01': dict(run='tre', tags=('ub', 'ord'), min=2000, rule='for every tree and key: insertion adds the value exactly when no equivalent key is present, at its place in the order, and returns where it is; lookup returns the equivalent element or end exactly when there is none; copies hold the same elements'),
    'T02': dict(run='tre', tags=('ub', 'rb', 'link', 'first', 'ord'), min=2000, rule='for every tree: after insertion no red node has a red child, every path has the same number of black nodes, the root is black, and all parent, child and first-element links agree'),
    'T03': dict(run='tre', tags=('ub', 'it', 'link', 'first', 'ord'), min=2000, rule='for every tree and position: increment moves to the next element in symmetric order or to end, begin is the least element, equality is identity of the element'),
    'T04': dict(run='tre', tags=('ub', 'life', 'ord'), min=2000, rule='every node is allocated once and released once, its element constructed and destroyed once, in every operation; clear and the destructor release every node of every tree'),
    'U01': dict(run='uptr', tags=('ub', 'life', 'val'), min=30, rule='ownership: each pointee has one owner or was released; deleted exactly once when its owner goes or is reset'),
}


COMPILES = ('V02', 'S02', 'D02', 'L01', 'F01', 'T01', 'U01', 'H01', 'N01', 'Q01', 'A01', 'I01', 'O01', 'C01', 'M03', 'M04', 'P01')


def rejections(ck, pid):
    """an operation of the property that no longer type-checks has no behaviour at all"""
    if pid not in COMPILES:
        return
    for entry, src, err in ir.rejected():
        ck.obl += 1
        ck.findings.append(spec.Finding('the operation ' + entry, 'does not compile: ' + err[:220], src, {}, 'refuted'))


def main(argv):
    pid = argv[0]
    verbose = '-v' in argv
    if '--thorough' in argv:
        os.environ['VERIF_TIER'] = 'thorough'
    p = PROPS[pid]
    ck = Checker(pid, p.get('tags', ('val',)), verbose)
    import importlib
    mod = importlib.import_module('sa.adts.' + p['run'])
    try:
        try:
            mod.run(ck)
        finally:
            rejections(ck, pid)
    except ir.CompileError as e:
        if ck.findings:
            ck.und('analysis incomplete: the harness does not compile', '')
            return finish(ck, p['rule'], TN, TB, minimum=p.get('min'))
        print('%s: the harness no longer compiles against the current tree\n%s' % (pid, e))
        return 2
    except ir.Broken as e:
        if not ck.findings:
            print('ANALYSIS-BROKEN %s: %s' % (pid, e))
            return 2
        ck.und('analysis incomplete: %s' % e, '')
    except Lost as e:
        if os.environ.get('SA_DEBUG'):
            raise
        ck.und('analysis incomplete: %s' % e.msg, '')
    except Exception as e:
        if os.environ.get('SA_DEBUG'):
            raise
        traceback.print_exc()
        if not ck.findings:
            print('ANALYSIS-BROKEN %s: %r' % (pid, e))
            return 2
        ck.und('analysis incomplete: %r' % e, '')
    return finish(ck, p['rule'], TN, TB, minimum=p.get('min'))
