"""function: N01"""
from ..spec import *

BIG = 1 << 40


def calls_of(st):
    return [e for e in st.log if e[0] == 'call']


def callee(nargs, kind, byval=False):
    """an opaque call operator: records the callable and its arguments"""
    def m(eng, st, args, ins):
        if kind == 'ptr':
            who, rest = 'ext', list(args)
        else:
            who, rest = E_get(eng, st, args[0], 'calling'), list(args[1:])
            if st.mem[args[0].obj].kind == 'stack':
                raise Bad('the call goes to a temporary copy, not to the stored callable')
        if byval:
            rest = [E_get(eng, st, rest[0], 'passing')]
        for a in rest:
            if a is RAW:
                raise Bad('an uninitialised argument is passed on')
        n = len(calls_of(st))
        # the values of referenced elements at the time of the call
        seen = tuple(E_get(eng, st, a, 'passing a reference to') if isinstance(a, Ptr) and a.obj in ('ea', 'eb', 'ec') else None for a in rest)
        st.log += (('call', who) + tuple(rest) + (seen,),)
        return [('ret', st, Ptr('eres') if kind == 'ref' else Term('result%d' % n, (), 64))]
    return m


def overload(r1, r2):
    """the callable distinguishes lvalue and rvalue arguments; both must come as rvalues"""
    f = callee(3, 'obj')

    def m(eng, st, args, ins):
        for i, r in ((1, r1), (2, r2)):
            if not r:
                raise Bad('argument %d is passed on as an lvalue' % i)
        v = E_get(eng, st, args[1], 'passing')
        if v is RAW or v is MOVED:
            raise Bad('argument 1 is passed on after it was moved from')
        return f(eng, st, [args[0], v] + list(args[2:]), ins)
    return m


def models():
    m = base_models()
    m.update(E_models())
    m.update(copies_counted(m))
    m.update(copies_counted(E_models('1F', 8, 'F'), '_ZN1F', 'copyF'))
    m['_ZN1FclElR1ERKS0_OS0_'] = callee(4, 'obj')
    m['_ZN1FclER1El'] = callee(2, 'obj')
    m['_ZN1FclEP1Ell'] = callee(3, 'ref')
    m['_ZN1FclE1E'] = callee(1, 'obj', True)
    for a, n in (('RK1ES2_', 0), ('O1ERKS0_', 1), ('RK1EOS0_', 2), ('O1ES1_', 3)):
        m['_ZN1FclE' + a + 'l'] = overload(n & 1, n >> 1)
    m['ext_fun'] = callee(4, 'ptr')
    m['ext_proc'] = callee(2, 'ptr')
    return m


def run(ck):
    mod = ir.compile_ir('fun.cpp')
    M = models()
    fv = lambda n: Term(n, (), 'E')

    def go(name, entry, st, args):
        outs = ck.returns(ck.run('function: ' + name, mod, entry, st, args, M))
        for o in outs:
            ck.no_stack_elements(o)
        return outs

    def start():
        st = State()
        st.mem['f'] = Flat('ext', 8, {})
        st.mem['src'] = Flat('ext', 8, {0: (8, fv('F.src'))})
        for n, k in (('ea', 'ext'), ('eb', 'ro'), ('ec', 'ext'), ('eres', 'ext')):
            st.mem[n] = Flat(k, 8, {0: (8, fv(n))})
        st.cons = st.cons.add(Lin.sym('x') + BIG).add(BIG - Lin.sym('x')).add(Lin.sym('y') + BIG).add(BIG - Lin.sym('y'))
        return st

    X, Y = Lin.sym('x'), Lin.sym('y')
    SIG = {
        'v': ([X, Ptr('ea'), Ptr('eb'), Ptr('ec')], (X, Ptr('ea'), Ptr('eb'), Ptr('ec')), 'val'),
        'n': ([Ptr('ea'), X], (Ptr('ea'), X), 'void'),
        'r': ([Ptr('ea'), X, Y], (Ptr('ea'), X, Y), 'ref'),
        'e': ([Ptr('eb')], (fv('eb'),), 'val'),
        'w': ([Ptr('eb'), Ptr('ea'), X], (fv('eb'), Ptr('ea'), X), 'void'),
    }

    def called(o, sig, who, n0, what):
        """exactly one call, with the arguments given"""
        args, want, res = SIG[sig]
        calls = calls_of(o.st)[n0:]
        if len(calls) != 1:
            ck.fail(o, '%s: the callable is called %d times' % (what, len(calls)))
            return
        c = calls[0]
        ck.eq(o, c[1], who, what + ': the callable called') if not isinstance(who, str) else ck.prove(o, c[1] == who, what + ': another function is called')
        have, seen = c[2:-1], c[-1]
        if len(have) != len(want):
            ck.fail(o, what + ': number of arguments')
            return
        for i, (h, w) in enumerate(zip(have, want)):
            if isinstance(w, Term) and not isinstance(h, Term):
                ck.fail(o, '%s: argument %d is %r' % (what, i + 1, h))
                continue
            ck.eq(o, h, vsubst(w, o.st.elim), '%s: argument %d' % (what, i + 1))
            if isinstance(w, Ptr) and isinstance(h, Ptr) and seen[i] is not None:
                ck.eq(o, seen[i], fv(w.obj), '%s: object referred to by argument %d' % (what, i + 1))
        if res == 'val':
            ck.eq(o, o.val, Term('result%d' % n0, (), 64), what + ': result')
        elif res == 'ref':
            ck.eq(o, o.val, Ptr('eres'), what + ': result')
        for n in ('ea', 'eb', 'ec'):
            ck.eq(o, o.st.mem[n].cells.get(0, (8, RAW))[1], fv(n), what + ': an argument is changed')

    def copied(o, before, sig, what):
        """an argument taken by value is copied once, where the caller gives it; from there it is moved"""
        n = len([e for e in o.st.log if e == ('copy',)]) - len([e for e in before.st.log if e == ('copy',)])
        allowed = len([w for w in SIG[sig][1] if isinstance(w, Term)])
        ck.prove(o, n <= allowed, '%s: arguments are copied %d times instead of %d' % (what, n, allowed))

    def stored(o, f, sig, who, nm):
        """call twice, destroy; -> nothing"""
        o.st.frames = [{}]
        args = [vsubst(a, o.st.elim) for a in SIG[sig][0]]
        for o1 in go(nm + ', call', 'h_%s_call' % sig, o.st, [Ptr(f)] + args):
            called(o1, sig, who, len(calls_of(o.st)), 'call')
            copied(o1, o, sig, 'call')
            for o2 in go(nm + ', second call', 'h_%s_call' % sig, o1.st, [Ptr(f)] + [vsubst(a, o1.st.elim) for a in args]):
                called(o2, sig, who, len(calls_of(o1.st)), 'second call')
                copied(o2, o1, sig, 'second call')
                for o3 in go(nm + ', destruction after calls', 'h_%s_dtor' % sig, o2.st, [Ptr(f)]):
                    ck.no_leak(o3, set(), 'the stored callable is leaked')
                    ck.prove(o3, len(calls_of(o3.st)) == len(calls_of(o2.st)), 'destruction calls the callable')
        for o3 in go(nm + ', destruction', 'h_%s_dtor' % sig, o.st, [Ptr(f)]):
            ck.no_leak(o3, set(), 'the stored callable is leaked')
            ck.prove(o3, len(calls_of(o3.st)) == len(calls_of(o.st)), 'destruction calls the callable')

    made = {}
    for sig, how in (('v', 'lval'), ('v', 'clval'), ('n', 'clval'), ('v', 'rval'), ('v', 'ptr'), ('v', 'guide'), ('n', 'lval'), ('n', 'rval'), ('n', 'ptr'), ('v', 'fref'), ('n', 'fref'), ('r', 'rval'), ('e', 'rval'), ('w', 'lval'), ('w', 'rval')):
        st = start()
        isptr = how in ('ptr', 'fref', 'guide')
        if how == 'clval':
            st.mem['src'] = st.mem['src'].copy(kind='ro')
        nm = {'lval': 'construction from an lvalue', 'clval': 'construction from a const lvalue', 'rval': 'construction from an rvalue', 'ptr': 'construction from a function pointer', 'fref': 'construction from a function',
              'guide': 'construction with deduction'}[how] + {'v': '', 'n': ' (void)', 'r': ' (reference result)', 'e': ' (by value)', 'w': ' (void, rvalue arguments)'}[sig]
        for o in go(nm, 'h_%s_%s' % (sig, how), st, [Ptr('f')] + ([] if isptr else [Ptr('src')])):
            ck.prove(o, len(calls_of(o.st)) == 0, 'construction calls the callable')
            if not isptr:
                w = o.st.mem['src'].cells.get(0, (8, RAW))[1]
                if how == 'rval':
                    ck.prove(o, w is not RAW, 'the source is destroyed', 'ub')
                    ck.prove(o, not any(e == ('copyF',) for e in o.st.log), 'a callable given as an rvalue is copied')
                else:
                    ck.eq(o, w, fv('F.src'), 'the callable given as an lvalue')
            stored(o, 'f', sig, 'ext' if isptr else fv('F.src'), nm)
            made.setdefault(sig, []).append((o, 'ext' if isptr else fv('F.src'), nm))
    for sig in ('v', 'n'):
        for o, who, nm in made.get(sig, []):
            st = o.st.copy()
            st.mem['g'] = Flat('ext', 8, {})
            for o1 in go('move ' + nm, 'h_%s_move' % sig, st, [Ptr('g'), Ptr('f')]):
                # the source goes first: the new owner keeps working
                for o2 in go('move %s, destruction of the source' % nm, 'h_%s_dtor' % sig, o1.st, [Ptr('f')]):
                    stored(o2, 'g', sig, who, 'move ' + nm)
    for o, who, nm in made.get('v', [])[:1]:
        st = o.st.copy()
        st.mem['g'] = st.mem['f']
        st.mem['f'] = Flat('ext', 8, {})
        st.mem['src2'] = Flat('ext', 8, {0: (8, fv('F.src2'))})
        for o1 in go('second ' + nm, 'h_v_lval', st, [Ptr('f'), Ptr('src2')]):
            for o2 in go('move assignment', 'h_v_massign', o1.st, [Ptr('f'), Ptr('g')]):
                for o3 in go('move assignment, destruction of the source', 'h_v_dtor', o2.st, [Ptr('g')]):
                    stored(o3, 'f', 'v', who, 'move assignment')
    return ck
