"""complex: C01 (arithmetic) and C02 (functions)"""
from .chain import *
from ..ratio import *
from .cct import Unroll
import os
import re

UNARY = ('sin', 'cos', 'sinh', 'cosh', 'tan', 'tanh', 'exp', 'log', 'log10', 'sqrt', 'asin', 'acos', 'atan')


class CEngine(Unroll):
    LIMIT = 12

    def fcmp(self, st, pred, a, b):
        if isinstance(a, Flt) and isinstance(b, Flt) or a is RAW or b is RAW:
            return Engine.fcmp(self, st, pred, a, b)
        # comparisons of real numbers, in one form: eq and lt
        neg = False
        p = pred[1:] if pred[0] in 'ou' and pred not in ('ord', 'uno') else pred
        if p in ('ord', 'uno'):
            return p == 'ord'
        if p in ('ne',):
            p, neg = 'eq', True
        if p in ('gt', 'le'):
            a, b, p = b, a, {'gt': 'lt', 'le': 'ge'}[p]
        if p == 'ge':
            p, neg = 'lt', not neg
        if a == b:
            return (p == 'eq') != neg
        if p == 'eq' and repr(b) < repr(a):
            a, b = b, a
        return ('atom', ('f' + p, a, b), not neg)


def fl_atom(name, n=1):
    def m(eng, st, args, ins):
        a = args[-n:]
        if any(x is RAW for x in a):
            raise Bad('an uninitialised value is used')
        if name in AT_ZERO and all(isinstance(x, Flt) and x.v == 0 for x in a):
            return Flt(AT_ZERO[name])
        return Term('fn:' + name, tuple(a), 'f')
    return m


AT_ZERO = {'abs': 0.0, 'sqrt': 0.0, 'sin': 0.0, 'sinh': 0.0, 'tan': 0.0, 'tanh': 0.0, 'cos': 1.0, 'cosh': 1.0, 'exp': 1.0, 'atan2': 0.0}


def cx(eng, st, p):
    v = []
    for off in (0, 8):
        x = eng.load(st, p.plus(off), 8, 'double')
        if x is RAW:
            raise Bad('an uninitialised part is used')
        v.append(x)
    return v


class PowEngine(CEngine):
    """products of powers of one number are powers of it: parts of z^k are kept as such"""
    LIMIT = 40
    BASE = 'a'

    def part(self, n):
        """'a.re' -> (1, 're')"""
        m = re.fullmatch(self.BASE + r'(?:\^(\d+))?\.(re|im)', n)
        return (int(m.group(1) or 1), m.group(2)) if m else None

    def power(self, k, part):
        return Term('%s%s.%s' % (self.BASE, '^%d' % k if k > 1 else '', part), (), 'f')

    def canon(self, v):
        """re z^j re z^k - im z^j im z^k = re z^(j+k), re z^j im z^k + im z^j re z^k = im z^(j+k)"""
        try:
            h = ratio(v)
        except Unsure:
            return v
        if h.d != const(1):
            return v
        if not h.n:
            return Flt(0.0)
        if len(h.n) == 1:
            (m, c), = h.n.items()
            if c == 1 and m == ():
                return Flt(1.0)
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 's' and self.part(m[0][0][1]):
                return Term(m[0][0][1], (), 'f')
        fs = {a[1] for m in h.n for a, p in m if a[0] == 's'}
        ks = sorted({self.part(f)[0] for f in fs if self.part(f)})
        if not 1 <= len(ks) <= 2 or not all(self.part(f) for f in fs):
            return v
        j, k = ks[0], ks[-1]
        s = lambda k, part: sym(self.power(k, part).src)
        for part, want in zip(('re', 'im'), cmul((s(j, 're'), s(j, 'im')), (s(k, 're'), s(k, 'im')))):
            if h.n == want.n:
                return self.power(j + k, part)
        return v

    def binop(self, st, op, a, b, bits, ins):
        v = CEngine.binop(self, st, op, a, b, bits, ins)
        return self.canon(v) if isinstance(v, Term) and op in ('fadd', 'fsub', 'fmul') else v


def mod_models(mod, functions):
    m = base_models()
    m['ext_alloc'] = ext_alloc
    m['ext_dealloc'] = ext_dealloc

    def fmuladd(eng, st, args, ins):
        v = Term('fadd', (Term('fmul', (args[0], args[1]), 'f'), args[2]), 'f')
        return eng.canon(v) if isinstance(eng, PowEngine) else v
    for k in ('llvm.fmuladd.f64', 'llvm.fmuladd.f32'):
        m[k] = fmuladd
    for f in UNARY:
        m['_ZN4cest%d%sEd' % (len(f), f)] = fl_atom(f)
        m[f] = fl_atom(f)
    m['_ZN4cest3absEd'] = m['_ZN4cest4fabsEd'] = fl_atom('abs')
    m['llvm.fabs.f64'] = m['fabs'] = fl_atom('abs')
    m['_ZN4cest5atan2Edd'] = m['atan2'] = fl_atom('atan2', 2)
    m['_ZN4cest3powEdd'] = m['pow'] = fl_atom('pow', 2)

    def powi(eng, st, args, ins):
        n = args[1]
        if not isinstance(n, Lin) or not n.is_const():
            return Term('fn:pow', (args[0], n), 'f')
        raise Lost('pow with a constant exponent')
    m['_ZN4cest3powEdi'] = powi
    if functions:
        def cabs(eng, st, args, ins):
            x, y = cx(eng, st, args[0])
            return Term('fn:cabs', (x, y), 'f')
        for k in ('_ZN4cest3absIdEET_RKNS_7complexIS1_EE', '_ZN4cest13__complex_absIdEET_RKNS_7complexIS1_EE'):
            m[k] = cabs
    return m


def rules_for(o):
    """what is known of the atoms: squares of roots, signs"""
    pos, neg, zero = set(), set(), set()
    for k, v in o.st.facts.items():
        if k[0] not in ('flt', 'feq'):
            continue
        try:
            d = ratio(k[1]) - ratio(k[2])
        except Unsure:
            continue
        if k[0] == 'flt':
            if v:
                neg.add(d.key())
                pos.add((-d).key())
        elif v:
            zero.add(d.key())
    for k, v in o.st.facts.items():
        if k[0] == 'flt' and not v:
            d = ratio(k[1]) - ratio(k[2])
            pos.add(d.key())        # over the reals
            neg.add((-d).key())

    # a non-negative quantity that is zero or no more than zero
    def absatoms(p):
        """the arguments, if the polynomial is a positive sum of absolute values"""
        r = []
        for m, c in p.n.items():
            if c <= 0 or len(m) != 1 or m[0][0][0] != 'f' or m[0][0][1] != 'abs' or p.d != const(1):
                return []
            r.append(m[0][0])
        return r
    nought = set()
    for k, v in o.st.facts.items():
        if k[0] == 'feq' and v:
            d = ratio(k[1]) - ratio(k[2])
            for a in absatoms(d) or absatoms(-d):
                nought.add(a)
    for _ in range(3):
        for k, v in o.st.facts.items():
            if k[0] == 'flt':
                a, b = ratio(k[1]), ratio(k[2])
                if v:       # smaller than nothing: no such path
                    if absatoms(b) and set(absatoms(b)) <= nought:
                        nought.update(absatoms(a))
                elif a.n and set(absatoms(a)) <= nought and absatoms(a) or not a.n:
                    nought.update(absatoms(b))
    for a in nought:
        zero.add(a[2])

    def unkey(k):
        return R(dict(k[0]), dict(k[1]))

    def rules(a, k):
        if a[0] == 's':
            key = sym(a[1]).key()
            if key in zero or (-sym(a[1])).key() in zero:
                return R(const(0))
            return None
        if a[1] == 'abs':
            if a[2] in pos:
                x = unkey(a[2])
            elif a[2] in neg:
                x = -unkey(a[2])
            elif k >= 2:
                x = None
            else:
                return None
            if x is not None:
                r = R(const(1))
                for _ in range(k):
                    r = r * x
                return r
            x = unkey(a[2])
            r = x * x
            for _ in range(k - 2):
                r = r * R({((a, 1),): Fraction(1)})
            return r
        if k >= 2 and a[1] in ('sqrt', 'cabs'):
            r = unkey(a[2]) if a[1] == 'sqrt' else unkey(a[2]) * unkey(a[2]) + unkey(a[3]) * unkey(a[3])
            for _ in range(k - 2):
                r = r * R({((a, 1),): Fraction(1)})
            return r
        return None
    return rules


def known(o):
    """the comparisons the path has made"""
    facts = []
    for k, v in o.st.facts.items():
        if k[0] in ('flt', 'feq'):
            try:
                facts.append((k[0][1:], ratio(k[1]) - ratio(k[2]), v))
            except Unsure:
                pass
    return facts


def symbols(r):
    def of(p):
        for m in p:
            for a, _ in m:
                if a[0] == 's':
                    yield a[1]
                else:
                    for n, d in a[2:]:
                        yield from of(dict(n))
                        yield from of(dict(d))
    return set(of(r.n)) | set(of(r.d))


class Cpx:
    def __init__(self, ck, functions):
        self.ck = ck
        self.mod = ir.compile_ir('cpx.cpp', inline=False)
        self.M = mod_models(self.mod, functions)
        ck.make_engine = lambda mod, M: CEngine(mod, M)

    def obj(self, st, name, kind='ro', w=8):
        st.mem[name] = Flat(kind, 2 * w, {0: (w, Term(name + '.re', (), 'f')), w: (w, Term(name + '.im', (), 'f'))})
        return Ptr(name)

    def num(self, st, name):
        st.mem[name] = Flat('ro', 8, {0: (8, Term(name, (), 'f'))})
        return Ptr(name)

    def parts(self, o, name):
        ob = o.st.mem[name]
        return [ob.cells.get(off, (8, RAW))[1] for off in (0, 8)]

    def same(self, o, have, want, what):
        """have equals want, over the reals"""
        ck = self.ck
        if have is RAW:
            return ck.fail(o, '%s is indeterminate' % what, 'ub')
        try:
            h = ratio(have)
            r = rules_for(o)
            p = simplify((h - R.of(want)).n, r)
        except Unsure as e:
            ck.obl += 1
            ck.und('%s: %s' % (what, e), o.loc)
            return
        self.verdict(o, p, h, want, what)

    def verdict(self, o, p, h, want, what):
        """p: the simplified difference"""
        ck = self.ck
        if p:
            facts = known(o)
            if not differ(h, R.of(want), facts):
                ck.obl += 1
                ck.und('%s: whether %r is %r' % (what, h, want), o.loc)
                return
        else:
            # equal as expressions: is it also computed wherever it has a value?
            w = R.of(want)
            bad = sample(known(o), lambda env: defined(h, w, env), names=sorted(symbols(h)))
            ck.prove(o, bad is not True, '%s is not computed where it has a value: a divisor or argument of a function vanishes' % what)
        ck.prove(o, not p, '%s is %r instead of %r' % (what, h, want))

    def both(self, o, name, want, what='the result'):
        for v, w, part in zip(self.parts(o, name), want, ('real', 'imaginary')):
            self.same(o, v, w, 'the %s part of %s' % (part, what))

    def go(self, name, entry, st, args):
        return self.ck.returns(self.ck.run(name, self.mod, entry, st, args, self.M))

    def truth(self, o, cond, what):
        v = o.val
        c = v.cond if isinstance(v, BInt) else cnot(eq0(v)) if isinstance(v, Lin) else None
        if c is None:
            self.ck.und('%s: %r' % (what, v), o.loc)
            return
        self.ck.prove(o, cor(cand(c, cond), cand(cnot(c), cnot(cond))), what)


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cdiv(a, b):
    n = b[0] * b[0] + b[1] * b[1]
    return ((a[0] * b[0] + a[1] * b[1]) / n, (a[1] * b[0] - a[0] * b[1]) / n)


def arithmetic(ck):
    X = Cpx(ck, False)
    Z = lambda n: (sym(n + '.re'), sym(n + '.im'))
    x, y = sym('x'), sym('y')
    zero = R(const(0))
    fx, fy = Term('x', (), 'f'), Term('y', (), 'f')
    a, b = Z('a'), Z('b')

    def into(name, entry, want, mk):
        st = State()
        st.mem['r'] = Flat('ext', 16, {})
        args = [Ptr('r')] + mk(st)
        for o in X.go(name, entry, st, args):
            X.both(o, 'r', want)
    A = lambda st: [X.obj(st, 'a')]
    into('default construction', 'h_ctor0', (zero, zero), lambda st: [])
    into('construction from a real', 'h_ctor1', (x, zero), lambda st: [fx])
    into('construction', 'h_ctor2', (x, y), lambda st: [fx, fy])
    into('copy construction', 'h_copy', a, A)
    into('conversion', 'h_conv', a, lambda st: [X.obj(st, 'a', w=4)])
    into('unary plus', 'h_pos', a, A) if 'h_pos' in X.mod.funcs else None
    into('negation', 'h_neg', (-a[0], -a[1]), A)
    into('conjugate', 'h_conj', (a[0], -a[1]), A)
    for n, want in (('real', a[0]), ('imag', a[1]), ('freal', a[0]), ('fimag', a[1]), ('norm2', a[0] * a[0] + a[1] * a[1]), ('norm', a[0] * a[0] + a[1] * a[1])):
        st = State()
        for o in X.go(n, 'h_' + n, st, [X.obj(st, 'a')]):
            X.same(o, o.val, want, 'the result')
    for n, want in (('setreal', (x, a[1])), ('setimag', (a[0], x))):
        st = State()
        for o in X.go(n, 'h_' + n, st, [X.obj(st, 'a', 'ext'), fx]):
            X.both(o, 'a', want)
    ops = {'add': lambda p, q: (p[0] + q[0], p[1] + q[1]), 'sub': lambda p, q: (p[0] - q[0], p[1] - q[1]), 'mul': cmul, 'div': cdiv}
    sign = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
    for n, f in ops.items():
        s = sign[n]
        into('complex %s complex' % s, 'h_' + n, f(a, b), lambda st: [X.obj(st, 'a'), X.obj(st, 'b')])
        into('complex %s real' % s, 'h_%sr' % n, f(a, (x, zero)), lambda st: [X.obj(st, 'a'), X.num(st, 'x')])
        into('real %s complex' % s, 'h_%sl' % n, f((x, zero), a), lambda st: [X.num(st, 'x'), X.obj(st, 'a')])
    comp = [(n + k, (sign[n] + '=', f), k) for n, f in ops.items() for k in 'cfts'] + [('set', ('=', lambda p, q: q), 'c'), ('setf', ('=', lambda p, q: q), 'f'), ('sett', ('=', lambda p, q: q), 't')]
    for n, (s, f), k in comp:
        st = State()
        args = [X.obj(st, 'a', 'ext')]
        if k == 't':
            args.append(X.num(st, 'x'))
        elif k != 's':
            args.append(X.obj(st, 'b', w=4 if k == 'f' else 8))
        rhs = (x, zero) if k == 't' else a if k == 's' else b
        for o in X.go('complex %s %s' % (s, {'c': 'complex', 'f': 'complex of another type', 't': 'real', 's': 'itself'}[k]), 'h_' + n, st, args):
            X.both(o, 'a', f(a, rhs), 'the target')
            ck.eq(o, o.val, Ptr('a'), 'the result')
    T = lambda n: Term(n, (), 'f')
    eng = CEngine(X.mod, X.M)
    for n, mixed, ne in (('eq', False, False), ('ne', False, True), ('eqr', 'r', False), ('ner', 'r', True), ('eql', 'l', False), ('nel', 'l', True)):
        st = State()
        args = [X.obj(st, 'a')]
        if mixed:
            args.append(X.num(st, 'x'))
            if mixed == 'l':
                args.reverse()
            other = (T('x'), Flt(0.0))
        else:
            args.append(X.obj(st, 'b'))
            other = (T('b.re'), T('b.im'))
        c = cand(eng.fcmp(st, 'oeq', T('a.re'), other[0]), eng.fcmp(st, 'oeq', T('a.im'), other[1]))
        for o in X.go('comparison ' + n, 'h_' + n, st, args):
            X.truth(o, cnot(c) if ne else c, 'the comparison does not compare both parts')


def run(ck):
    arithmetic(ck)


def fact(o, eng, pred, a, b):
    """what the state says about a comparison"""
    c = eng.fcmp(o.st, pred, a, b)
    if c is True or c is False:
        return c
    v = o.st.facts.get(c[1])
    return None if v is None else v == c[2]


def functions(ck):
    X = Cpx(ck, True)
    x, y = sym('a.re'), sym('a.im')
    zero = R(const(0))
    f = fn
    T = lambda n: Term(n, (), 'f')
    eng = CEngine(X.mod, X.M)
    cabs = f('cabs', x, y)
    S = (f('sin', x) * f('cosh', y), f('cos', x) * f('sinh', y))
    C = (f('cos', x) * f('cosh', y), -(f('sin', x) * f('sinh', y)))
    SH = (f('sinh', x) * f('cos', y), f('cosh', x) * f('sin', y))
    CH = (f('cosh', x) * f('cos', y), f('sinh', x) * f('sin', y))
    LG = (f('log', cabs), f('atan2', y, x))
    L10 = f('log', R(const(10)))
    table = {'cos': C, 'cosh': CH, 'sin': S, 'sinh': SH, 'tan': cdiv(S, C), 'tanh': cdiv(SH, CH),
             'exp': (f('exp', x) * f('cos', y), f('exp', x) * f('sin', y)), 'log': LG, 'log10': (LG[0] / L10, LG[1] / L10)}
    for n, want in table.items():
        st = State()
        st.mem['r'] = Flat('ext', 16, {})
        for o in X.go(n, 'h_' + n, st, [Ptr('r'), X.obj(st, 'a')]):
            X.both(o, 'r', want)
    st = State()
    for o in X.go('arg', 'h_arg', st, [X.obj(st, 'a')]):
        X.same(o, o.val, f('atan2', y, x), 'the result')
    st = State()
    st.mem['r'] = Flat('ext', 16, {})
    u, v = sym('x'), sym('y')
    for o in X.go('polar', 'h_polar', st, [Ptr('r'), X.num(st, 'x'), X.num(st, 'y')]):
        X.both(o, 'r', (u * f('cos', v), u * f('sin', v)))
    # the magnitude: its square is the norm
    hold = X.M
    X.M = mod_models(X.mod, False)
    st = State()
    for o in X.go('abs', 'h_abs', st, [X.obj(st, 'a')]):
        try:
            h = ratio(o.val)
        except Unsure as e:
            ck.obl += 1
            ck.und('abs: %s' % e, o.loc)
            continue
        X.same_r(o, h * h, x * x + y * y, 'the square of the magnitude')
        if sample(known(o), lambda env: value(h, env) >= -1e-9):
            ck.fail(o, 'the magnitude is negative', 'val')
    X.M = hold
    st = State()
    st.mem['r'] = Flat('ext', 16, {})
    for o in X.go('sqrt', 'h_sqrt', st, [Ptr('r'), X.obj(st, 'a')]):
        try:
            w = [ratio(p) for p in X.parts(o, 'r')]
        except Unsure as e:
            ck.obl += 1
            ck.und('sqrt: %s' % e, o.loc)
            continue
        q = cmul(w, w)

        def principal(env):
            p, r = value(w[0], env), value(w[1], env)
            return p > -1e-9 and (p > 1e-9 or r > -1e-9)
        if sample(known(o), principal):
            ck.fail(o, 'the root is not the principal one', 'val')
        X.same_r(o, q[0], x, 'the real part of the square of the root')
        X.same_r(o, q[1], y, 'the imaginary part of the square of the root')
    # powers
    for n in range(-5, 10):
        st = State()
        st.mem['r'] = Flat('ext', 16, {})
        want = (R(const(1)), zero)
        for _ in range(abs(n)):
            want = cmul(want, (x, y))
        if n < 0:
            want = cdiv((R(const(1)), zero), want)
        for o in X.go('pow %d' % n, 'h_powi', st, [Ptr('r'), X.obj(st, 'a'), L(n)]):
            X.both(o, 'r', want)
    bigpowers(X)
    zeros(X)
    b = (sym('b.re'), sym('b.im'))
    for n, base, ex in (('powt', 'a', 'x'), ('powc', 'a', 'b'), ('powl', 'x', 'a')):
        st = State()
        st.mem['r'] = Flat('ext', 16, {})
        args = [Ptr('r')]
        for k in (base, ex):
            args.append(X.num(st, 'x') if k == 'x' else X.obj(st, k))
        e = (u, zero) if ex == 'x' else b if ex == 'b' else (x, y)
        for o in X.go(n, 'h_' + n, st, args):
            if base == 'x':
                B = (u, zero)
                isreal = fact(o, eng, 'ogt', T('x'), Flt(0.0))
                iszero = fact(o, eng, 'oeq', T('x'), Flt(0.0))
            else:
                B = (x, y)
                isreal = fact(o, eng, 'oeq', T('a.im'), Flt(0.0)) and fact(o, eng, 'ogt', T('a.re'), Flt(0.0))
                iszero = fact(o, eng, 'oeq', T('a.im'), Flt(0.0)) and fact(o, eng, 'oeq', T('a.re'), Flt(0.0))
            if iszero:
                X.both(o, 'r', (zero, zero))
                continue
            lg = (f('log', f('cabs', *B)), f('atan2', B[1], B[0]))
            if isreal:
                # a positive real base: a^(p+iq) = a^p (cos(q log a) + i sin(q log a))
                m, q = f('exp', e[0] * f('log', B[0])), e[1] * f('log', B[0])
                want = (m, zero) if ex == 'x' else (m * f('cos', q), m * f('sin', q))
            else:
                t = cmul(e, lg)
                want = (f('exp', t[0]) * f('cos', t[1]), f('exp', t[0]) * f('sin', t[1]))
            X.both(o, 'r', want)


def zeros(X):
    """the functions at zero"""
    nul = R(const(0))
    O = lambda st, n: Flat('ro', 16, {0: (8, Flt(0.0)), 8: (8, Flt(0.0))})
    for n, ex in (('powt', 'x'), ('powc', 'b'), ('powl', 'b')):
        st = State()
        st.mem['r'] = Flat('ext', 16, {})
        st.mem['o'] = O(st, 'o') if n != 'powl' else Flat('ro', 8, {0: (8, Flt(0.0))})
        for o in X.go('%s at zero' % n, 'h_' + n, st, [Ptr('r'), Ptr('o'), X.num(st, 'x') if ex == 'x' else X.obj(st, 'b')]):
            X.both(o, 'r', (nul, nul))
    hold = X.M
    X.M = mod_models(X.mod, False)
    st = State()
    st.mem['o'] = O(st, 'o')
    for o in X.go('abs at zero', 'h_abs', st, [Ptr('o')]):
        X.same(o, o.val, nul, 'the magnitude')
    st = State()
    st.mem['o'] = O(st, 'o')
    st.mem['r'] = Flat('ext', 16, {})
    for o in X.go('sqrt at zero', 'h_sqrt', st, [Ptr('r'), Ptr('o')]):
        X.both(o, 'r', (nul, nul))
    X.M = hold


def bigpowers(X):
    """integer powers of any size: which power of the base the result is"""
    ck = X.ck
    make = ck.make_engine
    ck.make_engine = lambda mod, M: PowEngine(mod, M)
    ns = set(range(-70, 71)) | {-2 ** 31, -2 ** 31 + 1, 2 ** 31 - 1, 2 ** 31 - 2}
    for e in range(6, 31):
        ns |= {s * (2 ** e + d) for s in (-1, 1) for d in (-1, 0, 1)}
    if os.environ.get('VERIF_TIER') == 'thorough':
        ns |= set(range(-1100, 1101))
    one = (R(const(1)), R(const(0)))
    for n in sorted(ns):
        st = State()
        st.mem['r'] = Flat('ext', 16, {})
        for o in X.go('exponent %d' % n, 'h_powi', st, [Ptr('r'), X.obj(st, 'a'), L(n)]):
            eng = PowEngine(X.mod, X.M)
            try:
                h = [ratio(v) for v in X.parts(o, 'r')]
            except Unsure as e:
                ck.obl += 1
                ck.und('power %d: %s' % (n, e), o.loc)
                continue
            syms = {a for r in h for p in (r.n, r.d) for m in p for a, _ in m}
            ks = {eng.part(a[1])[0] if a[0] == 's' and eng.part(a[1]) else None for a in syms} or {0}
            m = None
            if len(ks) == 1 and None not in ks:
                k, = ks
                w = (sym(eng.power(k, 're').src), sym(eng.power(k, 'im').src)) if k else one
                if equal(h[0], w[0]) and equal(h[1], w[1]):
                    m = k
                else:
                    w = cdiv(one, w)
                    if equal(h[0], w[0]) and equal(h[1], w[1]):
                        m = -k
            if m is None:
                ck.obl += 1
                ck.und('power %d: whether the result is a power of the base' % n, o.loc)
            else:
                ck.prove(o, m == n, 'the exponent of the result is %d instead of %d' % (m, n))
    ck.make_engine = make


def same_r(self, o, h, want, what):
    ck = self.ck
    try:
        p = simplify((h - R.of(want)).n, rules_for(o))
    except Unsure as e:
        ck.obl += 1
        ck.und('%s: %s' % (what, e), o.loc)
        return
    self.verdict(o, p, h, want, what)


Cpx.same_r = same_r
